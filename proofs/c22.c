/* C22: PKCS#12 containers (keylib/pkcs12.c).
 * A list's keys and certificates are counted by prefix sums PK, PC (uninterpreted; the same for counting and
 * for reading): PK(i) keys are in its first i members. */
#include "jks_model.h"
#include <openssl/pkcs7.h>
#include <openssl/pkcs12.h>
#include "pkcs12.h"
#include "bio_model.h"
static const char *PW; static size_t PWN;
u32 __CPROVER_uninterpreted_PK(int); u32 __CPROVER_uninterpreted_PC(int);
#define PK(i) ((size_t)__CPROVER_uninterpreted_PK(i))
#define PC(i) ((size_t)__CPROVER_uninterpreted_PC(i))
struct stack_st { int n; }; static OPENSSL_STACK LST, SUB, SAFES; static int LN, LST_LIVE, SAFES_LIVE, CUR, NEXT, SUB_NULL;
struct PKCS12_SAFEBAG_st { int nid; }; static PKCS12_SAFEBAG BAG; static PKCS7 P7; struct asn1_object_st { int nid; }; static ASN1_OBJECT TY;
/* sums of counts that are not negative, and few enough to be counted */
static void sums(int i) { REQUIRES(PK(i) <= PK(i + 1) && PK(i + 1) <= PK(LN) && PC(i) <= PC(i + 1) && PC(i + 1) <= PC(LN)); }
int OPENSSL_sk_num(const OPENSSL_STACK *s) { if (!s) return -1; CALLPRE(s == &LST || s == &SAFES, "sk_num: the list"); return LN; }
void *OPENSSL_sk_value(const OPENSSL_STACK *s, int i)
{
    CALLPRE((s == &LST || s == &SAFES) && 0 <= i && i < LN && i == NEXT, "the members are taken in order, each once"); CUR = i; sums(i);
    if (s == &LST) return &BAG;
    TY.nid = nd_bool() ? NID_pkcs7_data : nd_bool() ? NID_pkcs7_encrypted : nd_int(); P7.type = &TY; _Bool some = nd_bool();
    if (!some || (TY.nid != NID_pkcs7_data && TY.nid != NID_pkcs7_encrypted)) { REQUIRES(PK(i) == PK(i + 1) && PC(i) == PC(i + 1)); NEXT++; return some ? &P7 : NULL; } /* no bags in it */
    return &P7;
}
int OBJ_obj2nid(const ASN1_OBJECT *o) { CALLPRE(o == &TY, "OBJ_obj2nid: the type"); return o->nid; }
static int UNPACK_FAIL, BAD;
static STACK_OF(PKCS12_SAFEBAG) *unpack(PKCS7 *p, int nid) { CALLPRE(p == &P7 && TY.nid == nid && LST_LIVE == 0 && !UNPACK_FAIL && !BAD, "a part is unpacked by its type, once the one before is done with"); if (nd_bool()) { UNPACK_FAIL = 1; return NULL; } LST_LIVE = 1; LIVE++; return (void *)&LST; }
STACK_OF(PKCS12_SAFEBAG) *PKCS12_unpack_p7data(PKCS7 *p) { return unpack(p, NID_pkcs7_data); }
STACK_OF(PKCS12_SAFEBAG) *PKCS12_unpack_p7encdata(PKCS7 *p, const char *w, int n) { CALLPRE(w == PW && (size_t)n == PWN, "the password given"); return unpack(p, NID_pkcs7_encrypted); }
void PKCS12_SAFEBAG_free(PKCS12_SAFEBAG *b) { }
void PKCS7_free(PKCS7 *b) { }
void OPENSSL_sk_pop_free(OPENSSL_STACK *s, void (*f)(void *))
{ if (!s) return; if (s == &LST) { CALLPRE(LST_LIVE && f == (void (*)(void *))PKCS12_SAFEBAG_free, "the bags are released, once"); LST_LIVE = 0; } else { CALLPRE(s == &SAFES && SAFES_LIVE && f == (void (*)(void *))PKCS7_free, "the parts are released, once"); SAFES_LIVE = 0; } LIVE--; }
/* bags */
int PKCS12_SAFEBAG_get_nid(const PKCS12_SAFEBAG *b) { CALLPRE(b == &BAG, "the bag"); return b->nid; }
const STACK_OF(PKCS12_SAFEBAG) *PKCS12_SAFEBAG_get0_safes(const PKCS12_SAFEBAG *b) { CALLPRE(b == &BAG && b->nid == NID_safeContentsBag, "the bags in a bag"); return (void *)&SUB; }
static size_t SUBK, SUBC; static int NSUB, SUB_RET; static size_t *NKP, *NCP, K0, C0;
/* keys */
static int P8PLAIN, P8DEC, P8_LIVE, PKEY_OK, P8_OK, NPKEY, X_OK, NCERT; static int KEYTOK, CERTTOK; static size_t SETK, SETC; static int NSETK, NSETC;
const PKCS8_PRIV_KEY_INFO *PKCS12_SAFEBAG_get0_p8inf(const PKCS12_SAFEBAG *b) { CALLPRE(b == &BAG && b->nid == NID_keyBag, "a plain key"); return (void *)&P8PLAIN; }
PKCS8_PRIV_KEY_INFO *PKCS12_decrypt_skey(const PKCS12_SAFEBAG *b, const char *w, int n) { CALLPRE(b == &BAG && b->nid == NID_pkcs8ShroudedKeyBag && w == PW && (size_t)n == PWN, "an encrypted key, with the password given"); P8_OK = nd_bool(); if (!P8_OK) return NULL; P8_LIVE++; LIVE++; return (void *)&P8DEC; }
void PKCS8_PRIV_KEY_INFO_free(PKCS8_PRIV_KEY_INFO *p) { if (p) { CALLPRE((void *)p == &P8DEC && P8_LIVE == 1, "only what was decrypted is released, once"); P8_LIVE--; LIVE--; } }
EVP_PKEY *EVP_PKCS82PKEY(const PKCS8_PRIV_KEY_INFO *p) { CALLPRE((void *)p == (BAG.nid == NID_keyBag ? &P8PLAIN : &P8DEC) && P8_LIVE == (BAG.nid != NID_keyBag), "the key's own data"); NPKEY++; PKEY_OK = nd_bool(); if (!PKEY_OK) return NULL; LIVE++; return (void *)&KEYTOK; }
X509 *PKCS12_SAFEBAG_get1_cert(const PKCS12_SAFEBAG *b) { CALLPRE(b == &BAG && b->nid == NID_certBag, "a certificate"); NCERT++; X_OK = nd_bool(); if (!X_OK) return NULL; LIVE++; return (void *)&CERTTOK; }
void KeyStoreSetKey(KeyStore *s, size_t i, EVP_PKEY *k) { CALLPRE(s == KS && i < s->nk && (void *)k == &KEYTOK, "KeyStoreSetKey: a place in the store"); SETK = i; NSETK++; LIVE--; }
void KeyStoreSetCert__p12(KeyStore *s, size_t i, X509 *x) { CALLPRE(s == KS && i < s->nc && (void *)x == &CERTTOK, "KeyStoreSetCert: a place in the store"); SETC = i; NSETC++; LIVE--; }
#define KeyStoreSetCert KeyStoreSetCert__p12
/* contracts of the functions of this file */
int countKeysCertsInBag__contract(const PKCS12_SAFEBAG *b, const char *w, size_t n, size_t *k, size_t *c)
{ CALLPRE(b == &BAG && w == PW && n == PWN && CUR == NEXT && k == NKP && c == NCP, "each bag is counted once"); NEXT++; if (k) *k += PK(CUR + 1) - PK(CUR); if (c) *c += PC(CUR + 1) - PC(CUR); return 1; }
int fromBag__contract(const PKCS12_SAFEBAG *b, const char *w, size_t n, KeyStore *ks, size_t *k, size_t *c)
{ CALLPRE(b == &BAG && w == PW && n == PWN && CUR == NEXT && k == NKP && c == NCP && ks == KS && !BAD, "each bag is read once, until one cannot be"); size_t dk = PK(CUR + 1) - PK(CUR), dc = PC(CUR + 1) - PC(CUR); CALLPRE(*k <= ks->nk && dk <= ks->nk - *k && *c <= ks->nc && dc <= ks->nc - *c, "the store has room for it"); if (nd_bool()) { BAD = 1; *k = nd_size(); *c = nd_size(); return 0; } NEXT++; *k += dk; *c += dc; return 1; }
#ifdef LISTS /* of the members of a list of parts, for parts; of a bag of bags, for bags */
int countKeysCertsInBags__contract(const STACK_OF(PKCS12_SAFEBAG) *l, const char *w, size_t n, size_t *k, size_t *c)
{ CALLPRE((void *)l == &LST && LST_LIVE && w == PW && n == PWN && k == NKP && c == NCP && CUR == NEXT, "each part's bags are counted once"); NEXT++; *k += PK(CUR + 1) - PK(CUR); *c += PC(CUR + 1) - PC(CUR); return 1; }
int fromBags__contract(const STACK_OF(PKCS12_SAFEBAG) *l, const char *w, size_t n, KeyStore *ks, size_t *k, size_t *c)
{ CALLPRE((void *)l == &LST && LST_LIVE && w == PW && n == PWN && k == NKP && c == NCP && CUR == NEXT && ks == KS && !BAD, "each part's bags are read once"); size_t dk = PK(CUR + 1) - PK(CUR), dc = PC(CUR + 1) - PC(CUR); CALLPRE(*k <= ks->nk && dk <= ks->nk - *k && *c <= ks->nc && dc <= ks->nc - *c, "the store has room for them"); if (nd_bool()) { BAD = 1; *k = nd_size(); *c = nd_size(); return 0; } NEXT++; *k += dk; *c += dc; return 1; }
#else
int countKeysCertsInBags__contract(const STACK_OF(PKCS12_SAFEBAG) *l, const char *w, size_t n, size_t *k, size_t *c)
{ CALLPRE((void *)l == &SUB && w == PW && n == PWN && k == NKP && c == NCP, "the bags in a bag are counted"); NSUB++; if (k) *k += SUBK; if (c) *c += SUBC; return 1; }
int fromBags__contract(const STACK_OF(PKCS12_SAFEBAG) *l, const char *w, size_t n, KeyStore *ks, size_t *k, size_t *c)
{ CALLPRE((void *)l == &SUB && w == PW && n == PWN && k == NKP && c == NCP && ks == KS && SUBK <= ks->nk - *k && SUBC <= ks->nc - *c, "the bags in a bag are read"); NSUB++; SUB_RET = nd_bool(); if (!SUB_RET) return 0; *k += SUBK; *c += SUBC; return 1; }
#endif
/* the container */
static const u8 *DATA; static size_t SZ; static int TOK, D2I_OK, P12_LIVE, MAC_OK, NMAC, SAFES_OK, COUNT_OK, FROM_OK, NFROM, STORE_LIVE; static size_t TOTK, TOTC; static KeyStore STORE, **KSO;
PKCS12 *d2i_PKCS12(PKCS12 **o, const unsigned char **p, long n) { CALLPRE(!o && *p == DATA && n == (long)SZ, "the container is parsed, all of it"); D2I_OK = nd_bool(); if (!D2I_OK) return NULL; P12_LIVE = 1; LIVE++; return (void *)&TOK; }
void PKCS12_free(PKCS12 *p) { if (p) { CALLPRE((void *)p == &TOK && P12_LIVE, "released once"); P12_LIVE = 0; LIVE--; } }
int PKCS12_verify_mac(PKCS12 *p, const char *w, int n) { CALLPRE((void *)p == &TOK && P12_LIVE && w == PW && (size_t)n == PWN, "the MAC is verified with the password given"); NMAC++; MAC_OK = nd_bool(); return MAC_OK; }
STACK_OF(PKCS7) *PKCS12_unpack_authsafes(const PKCS12 *p) { CALLPRE((void *)p == &TOK && P12_LIVE && NMAC && MAC_OK, "nothing is unpacked before the MAC is verified"); SAFES_OK = nd_bool(); if (!SAFES_OK) return NULL; SAFES_LIVE = 1; LIVE++; return (void *)&SAFES; }
int countKeysCerts__contract(const STACK_OF(PKCS7) *s, const char *w, size_t n, size_t *k, size_t *c) { CALLPRE((void *)s == &SAFES && SAFES_LIVE && w == PW && n == PWN && *k == 0 && *c == 0, "the parts are counted from nothing"); COUNT_OK = nd_bool(); if (!COUNT_OK) { *k = nd_size(); *c = nd_size(); return 0; } *k = TOTK; *c = TOTC; return 1; }
KeyStore *KeyStoreNew__p12(size_t k, size_t c) { CALLPRE(COUNT_OK && k == TOTK && c == TOTC && !STORE_LIVE, "a store of the size counted"); LIVE++; STORE_LIVE = 1; STORE.nk = k; STORE.nc = c; return &STORE; }
void KeyStoreFree__p12(KeyStore *s) { if (s) { CALLPRE(s == &STORE && STORE_LIVE, "released once"); STORE_LIVE = 0; LIVE--; } }
#define KeyStoreNew KeyStoreNew__p12
#define KeyStoreFree KeyStoreFree__p12
int fromSafes__contract(const STACK_OF(PKCS7) *s, const char *w, size_t n, KeyStore *ks, size_t *k, size_t *c) { CALLPRE((void *)s == &SAFES && SAFES_LIVE && w == PW && n == PWN && ks == &STORE && STORE_LIVE && *k == 0 && *c == 0 && TOTK <= ks->nk && TOTC <= ks->nc, "the parts are read into the store, from its start"); NFROM++; FROM_OK = nd_bool(); if (!FROM_OK) { *k = nd_size(); *c = nd_size(); return 0; } *k = TOTK; *c = TOTC; return 1; }
int parsePKCS12__contract(const void *d, size_t n, const char *p, size_t pn, KeyStore **ks) PARSE_BODY
int readPKCS12_bio__contract(BIO *b, const char *p, size_t pn, KeyStore **ks) READ_BODY
#ifndef BOUNDED
#define HAVI { i = nd_int(); NEXT = i; }
#ifdef UNIT_CBAGS
#undef DSTU_LOOP_HEAD_p12_count_bags
#define DSTU_LOOP_HEAD_p12_count_bags CUTS(a, 0 <= i && i < LN && NEXT == i && IMP(numKeys, *numKeys == K0 + PK(i)) && IMP(numCerts, *numCerts == C0 + PC(i)), { HAVI if (numKeys) *numKeys = nd_size(); if (numCerts) *numCerts = nd_size(); })
#endif
#ifdef UNIT_CSAFES
#undef DSTU_LOOP_HEAD_p12_count_safes
#define DSTU_LOOP_HEAD_p12_count_safes CUTS(a, 0 <= i && i < LN && NEXT == i && *numKeys == K0 + PK(i) && *numCerts == C0 + PC(i) && LST_LIVE == 0 && LIVE == 0 && !UNPACK_FAIL, { HAVI *numKeys = nd_size(); *numCerts = nd_size(); bags = nd_ptr(); pkcs7 = nd_ptr(); bagNID = nd_int(); })
#endif
#ifdef UNIT_FBAGS
#undef DSTU_LOOP_HEAD_p12_bags
#define DSTU_LOOP_HEAD_p12_bags CUTS(a, 0 <= i && i < LN && NEXT == i && *keyPos == K0 + PK(i) && *certPos == C0 + PC(i) && !BAD, { HAVI *keyPos = nd_size(); *certPos = nd_size(); })
#endif
#ifdef UNIT_FSAFES
#undef DSTU_LOOP_HEAD_p12_safes
#define DSTU_LOOP_HEAD_p12_safes CUTS(a, 0 <= i && i < LN && NEXT == i && *keyPos == K0 + PK(i) && *certPos == C0 + PC(i) && !BAD && LST_LIVE == 0 && LIVE == 0 && !UNPACK_FAIL, { HAVI *keyPos = nd_size(); *certPos = nd_size(); bags = nd_ptr(); pkcs7 = nd_ptr(); bagNID = nd_int(); })
#endif
#ifdef UNIT_READ
#undef DSTU_LOOP_HEAD_read_pkcs12
#define DSTU_LOOP_HEAD_read_pkcs12 READ_CUT
#endif
#endif
#include "pkcs12.c"
#undef KeyStoreNew
#undef KeyStoreFree
static size_t k1, c1;
static void init(void)
{
    PW = nd_ptr(); PWN = nd_size(); REQUIRES(PWN <= 0x7fffffff); LIVE = NEXT = LST_LIVE = SAFES_LIVE = UNPACK_FAIL = BAD = 0; CUR = -1; LN = nd_int(); REQUIRES(0 <= LN);
#ifdef BOUNDED
    REQUIRES(LN <= 2);
#endif
    REQUIRES(PK(0) == 0 && PC(0) == 0 && PK(LN) < 0x40000000 && PC(LN) < 0x40000000); k1 = nd_size(); c1 = nd_size(); REQUIRES(k1 < 0x40000000 && c1 < 0x40000000); K0 = k1; C0 = c1;
    NSUB = SUB_RET = NSETK = NSETC = NPKEY = PKEY_OK = P8_OK = P8_LIVE = NCERT = X_OK = 0; SUBK = nd_uint(); SUBC = nd_uint(); BAG.nid = nd_int(); switch (nd_int()) { case 0: BAG.nid = NID_keyBag; break; case 1: BAG.nid = NID_pkcs8ShroudedKeyBag; break; case 2: BAG.nid = NID_certBag; break; case 3: BAG.nid = NID_safeContentsBag; }
    NKP = &k1; NCP = &c1;
}
#define ISKEY (BAG.nid == NID_keyBag || BAG.nid == NID_pkcs8ShroudedKeyBag)
#define BK (ISKEY ? 1 : BAG.nid == NID_safeContentsBag ? SUBK : 0)
#define BC (BAG.nid == NID_certBag ? 1 : BAG.nid == NID_safeContentsBag ? SUBC : 0)
void h_cbag(void)
{ init(); NKP = nd_bool() ? &k1 : NULL; NCP = nd_bool() ? &c1 : NULL; int r = countKeysCertsInBag(&BAG, PW, PWN, NKP, NCP); ENSURES(r && k1 == K0 + (NKP ? BK : 0) && c1 == C0 + (NCP ? BC : 0), "a bag counts for its key, its certificate or the bags in it"); REACH("bag"); if (NSUB) REACH("bags in it"); }
void h_cbags(void)
{ init(); NKP = nd_bool() ? &k1 : NULL; NCP = nd_bool() ? &c1 : NULL; int r = countKeysCertsInBags((void *)&LST, PW, PWN, NKP, NCP); ENSURES(r && NEXT == LN && IMP(NKP, k1 == K0 + PK(LN)) && IMP(NCP, c1 == C0 + PC(LN)), "a list counts for all its bags"); REACH("bags"); if (LN > 1) REACH("several"); }
void h_csafes(void)
{ init(); int r = countKeysCerts((void *)&SAFES, PW, PWN, &k1, &c1); ENSURES(!r == UNPACK_FAIL, "counting fails exactly when a part cannot be unpacked"); ENSURES(IMP(r, NEXT == LN && k1 == K0 + PK(LN) && c1 == C0 + PC(LN)), "all the parts count"); ENSURES(LIVE == 0, "the bags are released"); REACH("parts"); if (r && LN > 1) REACH("several"); }
static KeyStore s;
static void store(void) { KS = &s; s.nk = nd_size(); s.nc = nd_size(); s.key = NULL; s.cert = NULL; REQUIRES(s.nk < 0x80000000 && s.nc < 0x80000000); }
void h_fbag(void)
{
    init(); store(); REQUIRES(k1 <= s.nk && c1 <= s.nc && BK <= s.nk - k1 && BC <= s.nc - c1); int r = fromBag(&BAG, PW, PWN, &s, &k1, &c1);
    ENSURES(!r == ((ISKEY && !(PKEY_OK && (BAG.nid == NID_keyBag || P8_OK))) || (BAG.nid == NID_certBag && !X_OK) || (BAG.nid == NID_safeContentsBag && !SUB_RET)), "a bag is refused exactly when its contents cannot be read"); ENSURES(IMP(r, k1 == K0 + BK && c1 == C0 + BC), "it takes as many places as it was counted for"); ENSURES(IMP(r && ISKEY, NSETK == 1 && SETK == K0 && NSETC == 0) && IMP(r && BAG.nid == NID_certBag, NSETC == 1 && SETC == C0 && NSETK == 0), "its key or certificate takes the next place"); ENSURES(IMP(!ISKEY && BAG.nid != NID_certBag, NSETK == 0 && NSETC == 0), "nothing else does"); ENSURES(NSUB == (BAG.nid == NID_safeContentsBag), "the bags in it are read"); ENSURES(LIVE == 0, "what was decrypted is released"); REACH("bag"); if (r && ISKEY) REACH("key"); if (r && NSETC) REACH("cert"); if (NSUB) REACH("sub");
}
void h_fbags(void)
{ init(); store(); REQUIRES(k1 <= s.nk && c1 <= s.nc && PK(LN) <= s.nk - k1 && PC(LN) <= s.nc - c1); int r = fromBags((void *)&LST, PW, PWN, &s, &k1, &c1); ENSURES(!r == BAD, "a list is refused exactly when one of its bags is"); ENSURES(IMP(r, NEXT == LN && k1 == K0 + PK(LN) && c1 == C0 + PC(LN)), "all its bags are read, in order"); REACH("bags"); if (r && LN > 1) REACH("several"); }
void h_fsafes(void)
{ init(); store(); REQUIRES(k1 <= s.nk && c1 <= s.nc && PK(LN) <= s.nk - k1 && PC(LN) <= s.nc - c1); int r = fromSafes((void *)&SAFES, PW, PWN, &s, &k1, &c1); ENSURES(!r == (BAD || UNPACK_FAIL), "reading fails exactly when a part or a bag cannot be read"); ENSURES(IMP(r, NEXT == LN && k1 == K0 + PK(LN) && c1 == C0 + PC(LN)), "all the parts are read, in order"); ENSURES(LIVE == 0, "the bags are released"); REACH("parts"); if (r && LN > 1) REACH("several"); }
void h_p12(void)
{
    init(); DATA = nd_ptr(); SZ = nd_size(); REQUIRES(SZ <= 0x7fffffff); TOTK = nd_uint(); TOTC = nd_uint(); P12_LIVE = NMAC = MAC_OK = SAFES_OK = COUNT_OK = FROM_OK = NFROM = STORE_LIVE = 0; KeyStore *k = NULL; 
    int r = parsePKCS12(DATA, SZ, PW, PWN, &k); _Bool all = D2I_OK && MAC_OK && SAFES_OK && COUNT_OK && (TOTK || TOTC);
    ENSURES(!r == !(all && FROM_OK), "a container is read exactly when its MAC is right, all its parts can be read and it holds something"); ENSURES(NFROM == all, "it is read once"); ENSURES(r ? k == &STORE && STORE_LIVE : k == NULL && !STORE_LIVE, "the caller gets the store, filled, or none"); ENSURES(LIVE == (r ? 1 : 0), "everything else is released"); REACH("p12"); if (r) REACH("store");
}
void h_read(void) READ_HARNESS(readPKCS12_bio(&SRC, A1, N1, KSP))
void h_file(void) FILE_HARNESS(readPKCS12(FP, A1, N1, KSP))
