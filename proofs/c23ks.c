/* C23: key stores (keylib/keystore.c).  Allocations of the store succeed (assumption: the code does not check them). */
#include "common.h"
#include <openssl/crypto.h>
#include <openssl/evp.h>
#include <openssl/x509.h>
#ifndef MAXN
#define MAXN ((size_t)1 << 40)
#endif
static size_t JK, JC, KN, CN, TK, TC; static void *VK, *VC, *VFK; static int LIVE;
static int dstu_cut_a, dstu_cut_b; static void *nd_ptr(void) { void *p; return p; }
static void *HK, *HC; /* the arrays the tracked entries live in */
void *CRYPTO_malloc(size_t n, const char *f, int l) { LIVE++; void *p = malloc(n); REQUIRES(p != NULL); return p; }
static int NFK, NFC, KFREED, CFREED; static EVP_PKEY *TOKK; static X509 *TOKC;
void EVP_PKEY_free(EVP_PKEY *k) { CALLPRE(!KFREED, "keys are released before their array"); if (k && k == TOKK) NFK++; }
void X509_free(X509 *k) { CALLPRE(!CFREED, "certificates are released before their array"); if (k && k == TOKC) NFC++; }
static void *AK, *AC;
void CRYPTO_clear_free(void *p, size_t n, const char *f, int l) { if (!p) return; CALLPRE(n <= __CPROVER_OBJECT_SIZE(p) && __CPROVER_POINTER_OFFSET(p) == 0, "clear_free: the object's size"); if (p == AK) KFREED++; if (p == AC) CFREED++; LIVE--; free(p); }
void CRYPTO_free(void *p, const char *f, int l) { CRYPTO_clear_free(p, 0, f, l); }
/* only the tracked entry is copied; J: index, of keys or of certificates by the array */
void *CRYPTO_clear_realloc(void *p, size_t o, size_t n, const char *f, int l)
{ CALLPRE(p ? o <= __CPROVER_OBJECT_SIZE(p) && __CPROVER_POINTER_OFFSET(p) == 0 : o == 0, "clear_realloc: the object's size"); CALLPRE(n > 0, "clear_realloc: to something"); if (!p) LIVE++; void **q = malloc(n); REQUIRES(q != NULL); if (p) { if (p == HK && JK < o / sizeof(void *) && JK < n / sizeof(void *)) q[JK] = ((void **)p)[JK]; if (p == HC && JC < o / sizeof(void *) && JC < n / sizeof(void *)) q[JC] = ((void **)p)[JC]; free(p); } return q; }
void *CRYPTO_realloc(void *p, size_t n, const char *f, int l) { return CRYPTO_clear_realloc(p, p ? __CPROVER_OBJECT_SIZE(p) : 0, n, f, l); }
#ifdef UNIT_NEW
#undef DSTU_LOOP_HEAD_ks_new_keys
#undef DSTU_LOOP_HEAD_ks_new_certs
#define DSTU_LOOP_HEAD_ks_new_keys CUTS(a, i < keyNum && keyNum == KN && certNum == CN && res != NULL && res->keyNum == KN && res->keys != NULL && IMP(JK < i, res->keys[JK] == NULL), { i = nd_size(); res->keys[JK] = nd_ptr(); })
#define DSTU_LOOP_HEAD_ks_new_certs CUTS(b, i < certNum && certNum == CN && res != NULL && res->certNum == CN && res->certs != NULL && IMP(JC < i, res->certs[JC] == NULL), { i = nd_size(); res->certs[JC] = nd_ptr(); })
#endif
#ifdef UNIT_APPEND
#undef DSTU_LOOP_HEAD_ks_append_keys
#undef DSTU_LOOP_HEAD_ks_append_certs
#define AINV(arr, num, J, T, V) (i < from->num && to->num == T && to->arr != NULL && IMP(J < T || (J >= T && J - T < i), to->arr[J] == V) && IMP(J >= T, from->arr[J - T] == (J - T < i ? NULL : V)))
#define DSTU_LOOP_HEAD_ks_append_keys CUTS(a, AINV(keys, keyNum, JK, TK, VK), { i = nd_size(); if (JK >= TK) { to->keys[JK] = nd_ptr(); from->keys[JK - TK] = nd_ptr(); } })
#define DSTU_LOOP_HEAD_ks_append_certs CUTS(b, AINV(certs, certNum, JC, TC, VC), { i = nd_size(); if (JC >= TC) { to->certs[JC] = nd_ptr(); from->certs[JC - TC] = nd_ptr(); } })
#endif
#ifdef UNIT_FREE
/* the tracked key is in entry JK and nowhere else: instance of the precondition at the current entry */
#undef DSTU_LOOP_HEAD_ks_free_keys
#undef DSTU_LOOP_HEAD_ks_free_certs
#define DSTU_LOOP_HEAD_ks_free_keys CUTS(a, i < ks->keyNum && NFK == (JK < i), { i = nd_size(); NFK = nd_int(); }) __CPROVER_assume(i == JK || ks->keys[i] != TOKK);
#define DSTU_LOOP_HEAD_ks_free_certs CUTS(b, i < ks->certNum && NFC == (JC < i), { i = nd_size(); NFC = nd_int(); }) __CPROVER_assume(i == JC || ks->certs[i] != TOKC);
#endif
#include "keystore.c"
static void mk(KeyStore *s, size_t k, size_t c) { s->keyNum = k; s->certNum = c; s->keys = k ? malloc(k * sizeof(EVP_PKEY *)) : NULL; s->certs = c ? malloc(c * sizeof(X509 *)) : NULL; REQUIRES(IMP(k, s->keys != NULL) && IMP(c, s->certs != NULL)); }
void h_new(void)
{
    KN = nd_size(); CN = nd_size(); JK = nd_size(); JC = nd_size(); REQUIRES(KN < MAXN && CN < MAXN && (JK < KN || (KN == 0 && JK == 0)) && (JC < CN || (CN == 0 && JC == 0)));
    KeyStore *s = KeyStoreNew(KN, CN);
    ENSURES(s && s->keyNum == KN && s->certNum == CN && KeyStoreKeyNum(s) == KN && KeyStoreCertNum(s) == CN, "a new store has the numbers of entries asked for"); ENSURES(IMP(KN, KeyStoreGetKey(s, JK) == NULL) && IMP(CN, KeyStoreGetCert(s, JC) == NULL), "its entries are empty"); ENSURES(IMP(KN, __CPROVER_OBJECT_SIZE(s->keys) >= KN * sizeof(void *)) && IMP(CN, __CPROVER_OBJECT_SIZE(s->certs) >= CN * sizeof(void *)), "there is room for every entry");
    EVP_PKEY *k = nd_ptr(); X509 *c = nd_ptr(); if (KN) KeyStoreSetKey(s, JK, k); if (CN) KeyStoreSetCert(s, JC, c); ENSURES(IMP(KN, KeyStoreGetKey(s, JK) == k) && IMP(CN, KeyStoreGetCert(s, JC) == c), "an entry is what it was set to"); size_t o = nd_size(); REQUIRES(o >= KN && o >= CN); ENSURES(KeyStoreGetKey(s, o) == NULL && KeyStoreGetCert(s, o) == NULL, "there is nothing beyond the last entry"); ENSURES(KeyStoreKeyNum(s) == KN && KeyStoreCertNum(s) == CN, "setting does not change the numbers"); REACH("new"); if (KN && CN) REACH("with entries");
}
void h_append(void)
{
    KeyStore to, from; TK = nd_size(); TC = nd_size(); KN = nd_size(); CN = nd_size(); REQUIRES(TK < MAXN && TC < MAXN && KN < MAXN && CN < MAXN); mk(&to, TK, TC); mk(&from, KN, CN); LIVE = (TK > 0) + (TC > 0) + (KN > 0) + (CN > 0);
    JK = nd_size(); JC = nd_size(); REQUIRES((JK < TK + KN || (TK + KN == 0 && JK == 0)) && (JC < TC + CN || (TC + CN == 0 && JC == 0))); HK = to.keys; HC = to.certs; VK = VC = NULL; if (TK + KN) VK = JK < TK ? to.keys[JK] : from.keys[JK - TK]; if (TC + CN) VC = JC < TC ? to.certs[JC] : from.certs[JC - TC];
    KeyStoreAppend(&to, &from);
    ENSURES(KeyStoreKeyNum(&to) == TK + KN && KeyStoreCertNum(&to) == TC + CN, "the numbers of entries add up"); ENSURES(IMP(TK + KN, KeyStoreGetKey(&to, JK) == VK), "the keys follow each other in order"); ENSURES(IMP(TC + CN, KeyStoreGetCert(&to, JC) == VC), "the certificates follow each other in order"); ENSURES(IMP(TK + KN && JK >= TK, KeyStoreGetKey(&from, JK - TK) == NULL) && IMP(TC + CN && JC >= TC, KeyStoreGetCert(&from, JC - TC) == NULL), "what was appended is owned by one store only"); ENSURES(KeyStoreKeyNum(&from) == KN && KeyStoreCertNum(&from) == CN && LIVE == (TK + KN > 0) + (TC + CN > 0) + (KN > 0) + (CN > 0), "the appended store stays releasable"); REACH("append"); if (TK && KN && TC && CN) REACH("both filled");
}
void h_free(void)
{
    KeyStoreFree(NULL); KeyStore *s = malloc(sizeof *s); REQUIRES(s != NULL); KN = nd_size(); CN = nd_size(); REQUIRES(KN < MAXN && CN < MAXN); mk(s, KN, CN); LIVE = 1 + (KN > 0) + (CN > 0); AK = s->keys; AC = s->certs; JK = nd_size(); JC = nd_size(); REQUIRES(IMP(KN, JK < KN) && IMP(CN, JC < CN)); TOKK = malloc(1); TOKC = malloc(1); REQUIRES(TOKK != NULL && TOKC != NULL); if (KN) s->keys[JK] = TOKK; if (CN) s->certs[JC] = TOKC;
#ifdef BOUNDED
    for (size_t i = 0; i < MAXN; i++) { if (i < KN && i != JK) REQUIRES(s->keys[i] != TOKK); if (i < CN && i != JC) REQUIRES(s->certs[i] != TOKC); }
#endif
    KeyStoreFree(s); ENSURES(NFK == (KN > 0), "every key is released once"); ENSURES(NFC == (CN > 0), "every certificate is released once"); ENSURES(LIVE == 0 && KFREED == (KN > 0) && CFREED == (CN > 0), "the arrays and the store are released"); REACH("free"); if (KN && CN) REACH("with entries");
}
