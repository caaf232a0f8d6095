/* C20: protected keys of Java key stores (keylib/jks.c): Sun's key protector. */
#include "jks_model.h"
static const void *PW; static size_t PWN;
/* PKCS#8 keys (C23) */
static int NP8, P8_RET; static size_t P8K, P8C; static const void *P8_AT; static size_t P8_N; static u8 P8_J;
#ifdef UNIT_PROT
static u8 *D; static size_t SZ, ENC; static u8 ENCJ; static int ROUND, NCHK, MD_FAIL, dstu_cut_a, dstu_cut_b; static u8 SALT[20], CHK[20]; u8 __CPROVER_uninterpreted_chain(size_t, int); 
static size_t NCHAIN;
#define CH(n, k) ((n) == 0 ? SALT[k] : __CPROVER_uninterpreted_chain(n, k))
/* J == 20 JR + JC, ENC == 20 ER + EC; ROUNDS links are needed */
static size_t JR, ER, ROUNDS; static int JC, EC; static u8 DECJ;
static const void *DEC_AT;
/* two-part digest (C19): the next link of the chain, or the check value over the decrypted octets */
int twoHash__contract(const void *a, size_t an, const void *b, size_t bn, void *o)
{
    CALLPRE(a == PW && an == PWN, "the digest starts with the password"); u8 *d = o;
    if (b == o && bn == 20 && NCHAIN < ROUNDS) { CALLPRE(d[K] == CH(NCHAIN, K), "each link of the chain is made of the one before, the first of the salt"); if (nd_bool()) { MD_FAIL = 1; return 0; } NCHAIN++; for (int i = 0; i < 20; i++) d[i] = nd_u8(); REQUIRES(d[K] == __CPROVER_uninterpreted_chain(NCHAIN, K)); REQUIRES(d[JC] == __CPROVER_uninterpreted_chain(NCHAIN, JC)); return 1; }
    CALLPRE(bn == ENC && NCHAIN == ROUNDS, "the check value is taken over everything decrypted, after all of the chain"); CALLPRE(ENC == 0 || ((const u8 *)b)[J] == DECJ, "octet J is decrypted with its octet of the chain"); DEC_AT = b; NCHK++; if (nd_bool()) { MD_FAIL = 1; return 0; } for (int i = 0; i < 20; i++) d[i] = CHK[i]; return 1;
}
#ifndef BOUNDED
#undef DSTU_LOOP_HEAD_key_protector
#undef DSTU_LOOP_HEAD_key_protector_block
#define BOTH encrypted == D + 20 && rounds == ROUNDS && i < rounds && encryptedLength == ENC && decrypted != NULL && __CPROVER_OBJECT_SIZE(decrypted) >= ENC && __CPROVER_POINTER_OFFSET(decrypted) == 0 && LIVE == 1 && pos < ENC
#define DSTU_LOOP_HEAD_key_protector CUTS(a, BOTH && pos == 20 * i && NCHAIN == i && digest[K] == CH(i, K) && IMP(J < pos, decrypted[J] == DECJ), { i = nd_size(); REQUIRES(i < MAXSIZE); pos = 20 * i; NCHAIN = i; j = nd_size(); decrypted[J] = nd_u8(); for (int q_ = 0; q_ < 20; q_++) digest[q_] = nd_u8(); })
#define DSTU_LOOP_HEAD_key_protector_block CUTS(b, BOTH && j < 20 && pos == 20 * i + j && NCHAIN == i + 1 && digest[K] == CH(i + 1, K) && digest[JC] == CH(i + 1, JC) && IMP(J < pos, decrypted[J] == DECJ), { j = nd_size(); REQUIRES(j < 20); pos = 20 * i + j; decrypted[J] = nd_u8(); })
#endif
int keysFromPKCS8(const void *d, size_t n, KeyStore **ks)
{ CALLPRE(n == ENC && (n == 0 || __CPROVER_r_ok(d, n)) && d == DEC_AT && NCHK == 1, "the decrypted octets are parsed, all of them, once checked"); CALLPRE(ENC == 0 || ((const u8 *)d)[J] == DECJ, "as decrypted"); NP8++; P8_RET = nd_bool(); if (!P8_RET) return 0; P8K = nd_bool() ? 1 : 2; *ks = KeyStoreNew(P8K, 0); (*ks)->key = (EVP_PKEY *)&PW; return 1; }
#else
int twoHash__contract(const void *a, size_t an, const void *b, size_t bn, void *o);
int keysFromPKCS8(const void *d, size_t n, KeyStore **ks) { CALLPRE(0, "only through the key protector"); return 0; }
#endif
#ifdef UNIT_DECRYPT
/* X509_SIG: algorithm and octets */
struct asn1_object_st { int kind; }; struct X509_sig_st { int live; }; static X509_SIG SIG; static X509_ALGOR ALG; static ASN1_OBJECT AOB; static ASN1_OCTET_STRING OCT; static int SIG_OK, NPROT, PROT_RET, U_OK; static const void *DATA; static size_t DN; static const char *PASS; static size_t PASSN;
X509_SIG *d2i_X509_SIG(X509_SIG **o, const unsigned char **p, long n) { CALLPRE(!o && *p == DATA && n == (long)DN, "the protected key is parsed"); SIG_OK = nd_bool(); if (!SIG_OK) return NULL; LIVE++; SIG.live = 1; return &SIG; }
void X509_SIG_free(X509_SIG *s) { if (s) { CALLPRE(s == &SIG && SIG.live, "released once"); SIG.live = 0; LIVE--; } }
void X509_SIG_get0(const X509_SIG *s, const X509_ALGOR **a, const ASN1_OCTET_STRING **d) { CALLPRE(s == &SIG && SIG.live, "X509_SIG_get0: the parsed key"); if (a) *a = &ALG; if (d) *d = &OCT; }
void X509_ALGOR_get0(const ASN1_OBJECT **o, int *t, const void **v, const X509_ALGOR *a) { CALLPRE(a == &ALG, "X509_ALGOR_get0: its algorithm"); *o = &AOB; if (t) *t = -1; if (v) *v = NULL; }
static int is(const char *a, const char *b) { for (int i = 0; i < 40; i++) { if (a[i] != b[i]) return 0; if (!a[i]) return 1; } return 0; }
ASN1_OBJECT *OBJ_txt2obj(const char *s, int no) { LIVE++; ASN1_OBJECT *o = malloc(sizeof *o); REQUIRES(o != NULL); o->kind = is(s, "1.3.6.1.4.1.42.2.17.1.1") ? 1 : is(s, "1.3.6.1.4.1.42.2.19.1") ? 2 : 3; return o; }
void ASN1_OBJECT_free(ASN1_OBJECT *o) { if (o) { LIVE--; free(o); } }
int OBJ_cmp(const ASN1_OBJECT *a, const ASN1_OBJECT *b) { CALLPRE(a && b, "OBJ_cmp: both objects"); return a->kind - b->kind; }
const unsigned char *ASN1_STRING_get0_data(const ASN1_STRING *s) { CALLPRE(s == &OCT && SIG.live, "the octets of the parsed key"); return s->data; }
int ASN1_STRING_length(const ASN1_STRING *s) { CALLPRE(s == &OCT && SIG.live, "the octets of the parsed key"); return s->length; }
int toUTF16BE__contract(const char *s, size_t n, void **d, size_t *dn) { CALLPRE(s == PASS && n == PASSN, "the key's password"); U_OK = nd_bool(); if (!U_OK) return 0; PWN = nd_size(); REQUIRES(0 < PWN && PWN < MAXSIZE); *d = CRYPTO_malloc(PWN, "", 0); PW = *d; *dn = PWN; return 1; }
static size_t *KP, *CP;
int fromKeyProtector__contract(const void *d, size_t n, const char *p, size_t pn, KeyStore *ks, size_t *k, size_t *c)
{ CALLPRE(d == OCT.data && n == (size_t)OCT.length && SIG.live && U_OK && p == PW && pn == PWN && __CPROVER_r_ok(p, pn) && ks == KS && k == KP && c == CP, "fromKeyProtector: the octets, the converted password, the store"); NPROT++; PROT_RET = nd_bool(); if (PROT_RET) ks->nk += 1; return PROT_RET; }
#else
int fromKeyProtector__contract(const void *d, size_t n, const char *p, size_t pn, KeyStore *ks, size_t *k, size_t *c); int toUTF16BE__contract(const char *s, size_t n, void **d, size_t *dn);
#endif
#include "jks.c"
#ifdef UNIT_PROT
static void prot(size_t sz)
{
    SZ = sz;
    D = malloc(SZ + 1); REQUIRES(D != NULL); PW = malloc(1); PWN = nd_size(); LIVE = 0; ENC = SZ >= 40 ? SZ - 40 : 0; 
#ifdef BOUNDED
    ER = ENC / 20; EC = ENC % 20;
#else
    ER = nd_size(); EC = nd_int(); REQUIRES(ER <= 0x7fffffff && 0 <= EC && EC < 20 && ENC == 20 * ER + EC);
#endif
    ROUNDS = ER + (EC > 0);
    JR = nd_size(); JC = nd_int(); REQUIRES(JR <= 0x7fffffff && 0 <= JC && JC < 20); J = 20 * JR + JC; K = nd_int(); REQUIRES(0 <= K && K < 20 && (J < ENC || (ENC == 0 && J == 0)));
    for (int i = 0; i < 20; i++) { SALT[i] = SZ >= 40 ? D[i] : 0; CHK[i] = nd_u8(); }
    DECJ = (SZ > 40 ? D[20 + J] : 0) ^ __CPROVER_uninterpreted_chain(JR + 1, JC); NCHAIN = NCHK = MD_FAIL = NP8 = P8_RET = 0; P8K = 0;
    _Bool eq = 1; if (SZ >= 40) for (int i = 0; i < 20; i++) eq &= D[20 + ENC + i] == CHK[i];
    KeyStore s; KS = &s; s.nk = nd_size(); s.nc = nd_size(); REQUIRES(s.nk < MAXSIZE && s.nc < MAXSIZE); s.cert = NULL; s.key = NULL; size_t nk0 = s.nk, nc0 = s.nc, kp = nd_size(), kp0 = kp, cp = nd_size(), cp0 = cp;
    int r = fromKeyProtector(D, SZ, PW, PWN, &s, nd_bool() ? &kp : NULL, nd_bool() ? &cp : NULL);
    ENSURES(!r == !(SZ >= 40 && !MD_FAIL && eq && NP8 && P8_RET), "a key is had exactly when salt, octets and check value are there, the check value is right and the octets hold a key"); ENSURES(IMP(SZ >= 40 && !MD_FAIL, NP8 == (eq ? 1 : 0)), "nothing is parsed that was not checked"); ENSURES(IMP(r, s.nk == nk0 + P8K && s.key == (EVP_PKEY *)&PW), "its keys are appended to the store"); ENSURES(IMP(!r, s.nk == nk0) && s.nc == nc0, "a refused key leaves the store as it was"); ENSURES(LIVE == 0, "everything else is released"); REACH("protector"); if (r) REACH("a key"); if (r && ENC > 40) REACH("of several blocks");
}
#ifdef BOUNDED
void h_prot(void) { switch (nd_int()) { case 0: prot(39); break; case 1: prot(40); break; case 2: prot(41); break; case 3: prot(60); break; case 4: prot(61); break; case 5: prot(85); break; default: prot(0); } }
#else
void h_prot(void) { size_t sz = nd_size(); REQUIRES(sz <= 0x7fffffff); prot(sz); }
#endif
#endif
#ifdef UNIT_DECRYPT
void h_decrypt(void)
{
    DATA = nd_ptr(); DN = nd_size(); REQUIRES(DN <= 0xffffffffu); PASS = nd_ptr(); PASSN = nd_size(); OCT.length = nd_int(); REQUIRES(OCT.length >= 0); OCT.data = nd_ptr(); AOB.kind = nd_int(); REQUIRES(AOB.kind == 0 || AOB.kind == 1 || AOB.kind == 2); SIG.live = LIVE = NPROT = PROT_RET = SIG_OK = 0; KeyStore s; KS = &s; s.nk = nd_size(); s.nc = nd_size(); REQUIRES(s.nk < MAXSIZE); size_t nk0 = s.nk, nc0 = s.nc, kp, cp; KP = &kp; CP = &cp;
    int r = decryptKey(DATA, DN, PASS, PASSN, &s, &kp, &cp);
    ENSURES(NPROT == (U_OK && SIG_OK && AOB.kind == 1), "the key protector is used for keys it protects"); ENSURES(IMP(AOB.kind == 1, !r == !(U_OK && SIG_OK && PROT_RET)), "such an entry is read exactly when its key is"); ENSURES(IMP(!U_OK || !SIG_OK || AOB.kind == 2, !r), "unreadable entries and password-based encryption are refused"); ENSURES(s.nk == nk0 + (NPROT && PROT_RET) && s.nc == nc0, "no other key gets into the store"); ENSURES(LIVE == 0 && !SIG.live, "the password and the parsed form are released"); REACH("decrypt"); if (r && NPROT) REACH("a key");
}
#endif
