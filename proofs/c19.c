/* C19: Java key stores (keylib/jks.c), the container. */
#include "jks_model.h"
static u8 *D; static size_t SZ; static const u8 *END; static int dstu_cut_a, dstu_cut_b;
/* digests: three updates at most, in order */
struct evp_md_ctx_st { int st; }; static int NUPD, MD_FAIL, NFINAL; static const void *UP[4]; static size_t UL[4]; static u8 MD[20]; struct evp_md_st { int x; }; static EVP_MD SHA1MD;
const EVP_MD *EVP_sha1(void) { return &SHA1MD; }
EVP_MD_CTX *EVP_MD_CTX_new(void) { LIVE++; EVP_MD_CTX *c = malloc(sizeof *c); REQUIRES(c != NULL); c->st = 0; return c; }
void EVP_MD_CTX_free(EVP_MD_CTX *c) { if (c) { LIVE--; free(c); } }
int EVP_DigestInit_ex(EVP_MD_CTX *c, const EVP_MD *m, ENGINE *e) { CALLPRE(m == &SHA1MD, "SHA-1"); if (nd_bool()) { MD_FAIL = 1; return 0; } c->st = 1; NUPD = 0; return 1; }
int EVP_DigestUpdate(EVP_MD_CTX *c, const void *p, size_t n) { CALLPRE(c->st == 1 && (n == 0 || __CPROVER_r_ok(p, n)), "DigestUpdate: started, readable bytes"); if (nd_bool()) { MD_FAIL = 1; return 0; } if (NUPD < 4) { UP[NUPD] = p; UL[NUPD] = n; } NUPD++; return 1; }
int EVP_DigestFinal_ex(EVP_MD_CTX *c, unsigned char *o, unsigned *n) { CALLPRE(c->st == 1 && __CPROVER_w_ok(o, 20), "DigestFinal: started, 20 bytes of room"); if (nd_bool()) { MD_FAIL = 1; return 0; } c->st = 2; NFINAL++; for (int i = 0; i < 20; i++) o[i] = MD[i]; if (n) *n = 20; return 1; }
/* certificates */
static int ND2I, D2I_OK, X509TOK; static const u8 *D2I_P; static long D2I_N;
X509 *d2i_X509(X509 **o, const unsigned char **p, long n) { CALLPRE(!o && n >= 0 && __CPROVER_r_ok(*p, n), "d2i_X509: readable bytes"); ND2I++; D2I_P = *p; D2I_N = n; D2I_OK = nd_bool(); if (!D2I_OK) return NULL; NX509++; return (X509 *)&X509TOK; }
/* character conversion: the stream of units produced is written out in full and in order */
static int CONV, ICONV_OK, ICONV_LIVE, NBIO, MEM_LIVE, FLUSHED; static size_t INPOS, INLEN, OUTN, WROTE, PENDING; static const char *INP; static char *PEND_AT; static void *MEM; static u8 *MEMDATA;
iconv_t iconv_open(const char *to, const char *from) { CALLPRE(to[0] == 'u' && to[4] == '1' && to[6] == 'b' && from[0] == 'u' && from[4] == '8', "from UTF-8 to UTF-16BE"); if (nd_bool()) return (iconv_t)-1; ICONV_LIVE++; return (iconv_t)&CONV; }
int iconv_close(iconv_t c) { CALLPRE(c == (iconv_t)&CONV && ICONV_LIVE == 1, "iconv_close: the open converter"); ICONV_LIVE = 0; return 0; }
static int ERRNO; int *__errno_location(void) { return &ERRNO; }
static int ICONV_ERR, NPIECES;
#ifdef BOUNDED
#define PIECEBOUND REQUIRES(++NPIECES <= 3)
#else
#define PIECEBOUND ((void)0)
#endif
size_t iconv(iconv_t c, char **in, size_t *inl, char **out, size_t *outl)
{
    CALLPRE(c == (iconv_t)&CONV && ICONV_LIVE, "iconv: the open converter"); CALLPRE(*outl == 0 || __CPROVER_w_ok(*out, *outl), "iconv: room for the output"); CALLPRE(PENDING == 0, "the output so far has been written out");
    if (in) { CALLPRE(*in == INP + INPOS && *inl == INLEN - INPOS && !FLUSHED, "iconv: the input not converted yet"); size_t k = nd_size(); REQUIRES(k <= *inl); INPOS += k; *in += k; *inl -= k; } else CALLPRE(INPOS == INLEN, "the converter is flushed after all of the input");
    if (!in && INLEN == 0) { FLUSHED = 1; return 0; } /* nothing was converted, nothing is left to deliver */
    size_t room = *outl, p = nd_size(); REQUIRES(p <= *outl && p <= 4 * INLEN); PEND_AT = *out; PENDING = p; *out += p; *outl -= p; OUTN += p; REQUIRES(OUTN <= 4 * INLEN); /* no octet becomes more than four */
    if (nd_bool()) { PIECEBOUND; ERRNO = nd_bool() ? E2BIG : nd_bool() ? EILSEQ : EINVAL; if (ERRNO != E2BIG) ICONV_ERR = 1; else REQUIRES(room < 4 * INLEN + 8); /* with enough room nothing is too big */ return (size_t)-1; } if (in) REQUIRES(*inl == 0); else FLUSHED = 1; return nd_uint();
}
struct bio_st { int x; }; static BIO MEMBIO, SRC;
const BIO_METHOD *BIO_s_mem(void) { return NULL; }
BIO *BIO_new(const BIO_METHOD *m) { LIVE++; MEM_LIVE++; NBIO++; return &MEMBIO; }
static int FILE_OK, FILE_LIVE, NR, RRET; static FILE *FP;
int BIO_free(BIO *b) { if (b) { CALLPRE(b == &MEMBIO ? MEM_LIVE == 1 : b == &SRC && FILE_LIVE == 1, "BIO_free: what was opened, once"); if (b == &MEMBIO) MEM_LIVE--; else FILE_LIVE--; LIVE--; } return 1; }
int BIO_write(BIO *b, const void *p, int n) { CALLPRE(b == &MEMBIO && MEM_LIVE && n >= 0 && p == PEND_AT && (size_t)n == PENDING, "the converted octets are written out, all and once"); WROTE += n; PENDING = 0; return n; }
/* reading: a source that delivers pieces of any size, then ends or fails */
static size_t SRCPOS, LASTPIECE; static int SRC_END, WFAIL; static u8 PIECE; static const void *PIECE_AT; static size_t PIECE_J; static u8 SJ; static _Bool SJ_IN;
int BIO_read_ex(BIO *b, void *p, size_t n, size_t *got) { CALLPRE(b == &SRC && !SRC_END && __CPROVER_w_ok(p, n), "BIO_read_ex: the source, room"); CALLPRE(LASTPIECE == 0, "the last piece has been kept"); if (nd_bool()) { SRC_END = 1; *got = 0; return nd_bool() && SRCPOS; } PIECEBOUND; size_t k = nd_size(); REQUIRES(0 < k && k <= n); *got = k; LASTPIECE = k; PIECE_AT = p; if (J >= SRCPOS && J < SRCPOS + k) ((u8 *)p)[J - SRCPOS] = SJ; SRCPOS += k; REQUIRES(SRCPOS < MAXSIZE); return 1; }
static size_t MEMLEN; static u8 MEMJ;
int BIO_write_ex(BIO *b, const void *p, size_t n, size_t *w) { CALLPRE(b == &MEMBIO && MEM_LIVE && p == PIECE_AT && n == LASTPIECE, "the piece just read is kept whole"); if (nd_bool()) { WFAIL = 1; return 0; } LASTPIECE = 0; if (J >= MEMLEN && J < MEMLEN + n) MEMJ = ((const u8 *)p)[J - MEMLEN]; MEMLEN += n; *w = n; return 1; }
long BIO_ctrl(BIO *b, int cmd, long a, void *pp)
{ CALLPRE(b == &MEMBIO && MEM_LIVE && cmd == BIO_CTRL_INFO, "BIO_get_mem_data: the memory BIO");
#ifdef UNIT_READ
  *(char **)pp = MEMLEN ? (char *)MEMDATA : NULL; return MEMLEN;
#else
  if (WROTE) { MEMDATA = malloc(WROTE); REQUIRES(MEMDATA != NULL); } else MEMDATA = NULL; *(char **)pp = (char *)MEMDATA; return WROTE;
#endif
}
BIO *BIO_new_fp(FILE *f, int c) { CALLPRE(f == FP && c == 0, "BIO_new_fp: the file given, left open"); FILE_OK = nd_bool(); if (!FILE_OK) return NULL; FILE_LIVE++; LIVE++; return &SRC; }
void *CRYPTO_realloc(void *p, size_t n, const char *f, int l) { CALLPRE(p != NULL && n >= __CPROVER_OBJECT_SIZE(p), "model: a buffer grows"); void *q = malloc(n); REQUIRES(q != NULL); free(p); return q; }
static size_t MCN; static const void *MCS; static void *MCD;
#ifdef UNIT_UTF16                        /* memcpy of a whole buffer: the copy's extent is recorded */
static void *memcpy__rec(void *d, const void *s, size_t n) { CALLPRE(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "memcpy: buffers"); MCN = n; MCS = s; MCD = d; return d; }
#define memcpy memcpy__rec
#ifndef BOUNDED
#undef DSTU_LOOP_HEAD_utf16_convert
#undef DSTU_LOOP_HEAD_utf16_flush
#define UINV (bufSize >= size && bufSize < 8 * INLEN + 16 && size == INLEN && buf != NULL && __CPROVER_OBJECT_SIZE(buf) >= bufSize && __CPROVER_OBJECT_SIZE(buf) <= 2 * bufSize && __CPROVER_POINTER_OFFSET(buf) == 0 && PENDING == 0 && WROTE == OUTN && OUTN <= 4 * INLEN && LIVE == 2 && ICONV_LIVE == 1 && MEM_LIVE == 1 && !ICONV_ERR)
#define NEWBUF { size_t x_ = nd_size(); REQUIRES(x_ >= size && x_ < MAXSIZE); bufSize = nd_size(); REQUIRES(bufSize <= x_ && x_ <= 2 * bufSize); if (buf) free(buf); buf = malloc(x_); REQUIRES(buf != NULL); WROTE = OUTN = nd_size(); d = nd_ptr(); ds = nd_size(); r = nd_size(); }
#define DSTU_LOOP_HEAD_utf16_convert CUTS(a, UINV && ss > 0 && ss <= INLEN && INPOS == INLEN - ss && s == INP + INPOS && !FLUSHED, { NEWBUF ss = nd_size(); REQUIRES(0 < ss && ss <= INLEN); INPOS = INLEN - ss; s = INP + INPOS; })
#define DSTU_LOOP_HEAD_utf16_flush if (INLEN) CUTS(b, UINV && INPOS == INLEN && !FLUSHED, NEWBUF)
#endif
#endif
#ifdef BOUNDED
#define LENBOUND(n, m) REQUIRES((n) <= (m))
#else
#define LENBOUND(n, m) ((void)0)
#endif
#ifdef BOUNDED
#define CNTBOUND(n) REQUIRES((n) <= 3)
#else
#define CNTBOUND(n) ((void)0)
#endif
#ifdef UNIT_KEY
static const u8 *CUR; static size_t NCERT, NFAIL; static u32 CNUM;
#ifndef BOUNDED
#undef DSTU_LOOP_HEAD_jks_certs
#define DSTU_LOOP_HEAD_jks_certs CUTS(a, i < certNum && certNum == CNUM && NCERT == i && certPtr == CUR && CUR >= D && CUR <= END && __CPROVER_same_object(CUR, D) && end == END && !NFAIL, { i = nd_size(); NCERT = i; certPtr = nd_ptr(); { size_t o_ = nd_size(); REQUIRES(o_ <= SZ); CUR = D + o_; certPtr = CUR; } })
#endif
#endif
#ifdef UNIT_JKS
static const u8 *CUR; static size_t NENT; static int NFAIL; static u32 ENUM;
#ifndef BOUNDED
#undef DSTU_LOOP_HEAD_jks_entries
#define DSTU_LOOP_HEAD_jks_entries CUTS(a, i < entries && entries == ENUM && NENT == i && entryPtr == CUR && CUR >= D && CUR <= END && __CPROVER_same_object(CUR, D) && end == END && !NFAIL && *ks == KS, { i = nd_size(); NENT = i; keyPos = nd_size(); certPos = nd_size(); { size_t o_ = nd_size(); REQUIRES(o_ <= SZ); CUR = D + o_; entryPtr = CUR; } })
#endif
#endif
#ifdef UNIT_READ
#ifndef BOUNDED
#undef DSTU_LOOP_HEAD_read_jks
#define DSTU_LOOP_HEAD_read_jks CUTS(a, total == SRCPOS && MEMLEN == SRCPOS && LASTPIECE == 0 && !SRC_END && !WFAIL && bio == &SRC && MEM_LIVE == 1 && IMP(J < MEMLEN, MEMJ == SJ), { total = nd_size(); MEMLEN = SRCPOS = total; REQUIRES(total < MAXSIZE); MEMJ = nd_u8(); bytes = nd_size(); written = nd_size(); __CPROVER_havoc_object(buf); })
#endif
#endif
const void *parseCert__contract(const void *d, const void *e, KeyStore *ks, size_t *cp); const void *parseEntry__contract(const void *d, const void *e, const char *kp, size_t kn, KeyStore *ks, size_t *k, size_t *c); const void *parseKey__contract(const void *d, const void *e, const char *kp, size_t kn, KeyStore *ks, size_t *k, size_t *c);
int decryptKey__contract(const void *d, size_t n, const char *kp, size_t kn, KeyStore *ks, size_t *k, size_t *c); int toUTF16BE__contract(const char *s, size_t n, void **d, size_t *dn); int whiteHash__contract(const void *a, size_t an, const void *b, size_t bn, void *o);
int parseJKS__contract(const void *d, size_t n, const char *sp, size_t sn, const char *kp, size_t kn, KeyStore **ks);
#include "jks.c"
#undef memcpy
/* The functions get a position and the end, never the start: the position is taken as the start of
 * the memory, so that looking before it counts as a violation too. */
static void mkdata(void) { SZ = nd_size(); REQUIRES(SZ < MAXSIZE); LENBOUND(SZ, 100); D = malloc(SZ + 1); REQUIRES(D != NULL); END = D + SZ; LIVE = 0; NX509 = 0; }
void h_has(void)
{ mkdata(); size_t at = 0, sh = nd_size(), n = nd_size(); int r = hasAt(D + at, sh, n, END); ENSURES(!r == !((unsigned __CPROVER_bitvector[72])at + sh + n <= SZ), "hasAt says whether the octets are there, whatever the numbers"); if (r && n) { u8 b = ((const u8 *)ptrAt(D + at, sh))[n - 1]; } REACH("has"); if (r) REACH("there"); }
void h_cert(void)
{
    mkdata(); const size_t at = 0; KeyStore k; k.nk = nd_size(); k.nc = nd_size(); k.cert = NULL; k.key = NULL; REQUIRES(k.nc < MAXSIZE); size_t nk0 = k.nk, nc0 = k.nc, cp = nd_size(), cp0 = cp; REQUIRES(cp < MAXSIZE); _Bool withpos = nd_bool(); const u8 *p = D + at; size_t room = SZ - at; ND2I = D2I_OK = 0;
    u32 tl = room >= 2 ? BE16(p) : 0; _Bool h = room >= 2 && room >= 2 + (size_t)tl + 4; u32 dl = h ? BE32B(p + 2 + tl) : 0; _Bool all = h && room - 6 - tl >= dl;
    const u8 *r = parseCert(p, END, &k, withpos ? &cp : NULL);
    ENSURES(!r == !(all && ND2I == 1 && D2I_OK), "a certificate is read exactly when all of it is there and it is one"); ENSURES(IMP(all, ND2I == 1 && D2I_P == p + 6 + tl && D2I_N == (long)dl), "it is decoded from the octets its length names"); ENSURES(IMP(r, r == p + 6 + tl + dl), "what follows it comes next"); ENSURES(k.nk == nk0 && k.nc == nc0 + (r != NULL) && IMP(r, k.cert == (X509 *)&X509TOK), "it is appended, once"); ENSURES(NX509 == (r != NULL) && LIVE == 0, "nothing leaks"); ENSURES(cp == cp0 + (r && withpos), "it is counted"); REACH("cert"); if (r) REACH("a certificate");
}
#ifdef UNIT_KEY
static const u8 *KP; static const char *PWD; static size_t PWDN; static size_t KROOM; static int NDEC, DEC_OK; static u32 NL, DL;
const void *parseCert__contract(const void *d, const void *e, KeyStore *ks, size_t *cp)
{ const u8 *p = d; CALLPRE(e == END && p >= D && p <= END && __CPROVER_same_object(p, D), "parseCert: within the container"); CALLPRE(p == CUR && ks == KS, "certificates follow each other"); NCERT++; size_t n = nd_size(); if (nd_bool() || (size_t)(END - p) < n || n < 6) { NFAIL++; return NULL; } CUR = p + n; return CUR; }
int decryptKey__contract(const void *d, size_t n, const char *kp, size_t kn, KeyStore *ks, size_t *k, size_t *c)
{ CALLPRE(14 + (size_t)NL + n <= SZ, "decryptKey: readable octets"); CALLPRE(d == KP + 14 + NL && n == DL && kp == PWD && kn == PWDN && ks == KS, "the protected key is the octets its length names"); NDEC++; DEC_OK = nd_bool(); return DEC_OK; }
void h_key(void)
{
    mkdata(); KeyStore k; KS = &k; KP = D; size_t room = SZ; PWD = nd_ptr(); PWDN = nd_size(); NCERT = NFAIL = NDEC = DEC_OK = 0; size_t kp, cp;
    u32 nl = room >= 2 ? BE16(KP) : 0; _Bool h = room >= 14 + (size_t)nl; u32 dl = h ? BE32B(KP + 10 + nl) : 0; _Bool all = h && room - 14 - nl >= (size_t)dl + 4; CNUM = all ? BE32B(KP + 14 + nl + dl) : 0; CNTBOUND(CNUM); NL = nl; DL = dl; CUR = KP + (all ? 18 + (size_t)nl + dl : 0);
    const u8 *r = parseKey(KP, END, PWD, PWDN, &k, &kp, &cp);
    ENSURES(!r == !(all && NDEC == 1 && DEC_OK && NFAIL == 0), "a key entry is read exactly when all of it is there and every part can be read"); ENSURES(IMP(r, NCERT == CNUM), "as many certificates follow as it says"); ENSURES(IMP(r, r == CUR && r >= KP && r <= END), "what follows the last one comes next"); ENSURES(NDEC <= 1, "the key is decrypted once"); REACH("key"); if (r) REACH("a key"); if (r && CNUM > 2) REACH("with a chain");
}
#endif
#ifdef UNIT_ENTRY
static const u8 *EP; static int NK, NC; static const void *ERET; static const char *PWD; static size_t PWDN;
const void *parseCert__contract(const void *d, const void *e, KeyStore *ks, size_t *cp) { CALLPRE(d == EP + 4 && e == END && ks == KS, "the certificate after the tag"); NC++; ERET = nd_bool() ? NULL : END; return ERET; }
const void *parseKey__contract(const void *d, const void *e, const char *kp, size_t kn, KeyStore *ks, size_t *k, size_t *c) { CALLPRE(d == EP + 4 && e == END && ks == KS && kp == PWD && kn == PWDN, "the key after the tag"); NK++; ERET = nd_bool() ? NULL : END; return ERET; }
void h_entry(void)
{ mkdata(); size_t at = 0, kp, cp; KeyStore k; KS = &k; EP = D + at; size_t room = SZ - at; PWD = nd_ptr(); PWDN = nd_size(); u32 tag = room >= 4 ? BE32B(EP) : 0; NK = NC = 0; ERET = NULL; const void *r = parseEntry(EP, END, PWD, PWDN, &k, &kp, &cp); ENSURES(NK == (tag == 1) && NC == (tag == 2), "an entry is a key or a certificate by its tag"); ENSURES(r == ERET, "other entries, and those cut short, are refused"); REACH("entry"); if (r) REACH("an entry"); }
#endif
#ifdef UNIT_JKS
static const char *SP, *KPW; static size_t SPN, KPN; static int U_OK, NU, NWH, WH_OK; static void *PW16; static size_t PW16N;
const void *parseEntry__contract(const void *d, const void *e, const char *kp, size_t kn, KeyStore *ks, size_t *k, size_t *c)
{ const u8 *p = d; CALLPRE(e == END && p >= D && p <= END && __CPROVER_same_object(p, D), "parseEntry: within the container"); CALLPRE(p == CUR && ks == KS && kp == KPW && kn == KPN, "entries follow each other"); NENT++; size_t n = nd_size(); if (nd_bool() || (size_t)(END - p) < n || n < 4) { NFAIL++; return NULL; } CUR = p + n; return CUR; }
int toUTF16BE__contract(const char *s, size_t n, void **d, size_t *dn) { CALLPRE(s == SP && n == SPN, "the store's password"); NU++; U_OK = nd_bool(); if (!U_OK) return 0; PW16N = nd_size(); REQUIRES(0 < PW16N && PW16N < MAXSIZE); *d = CRYPTO_malloc(PW16N, "", 0); PW16 = *d; *dn = PW16N; return 1; }
int whiteHash__contract(const void *a, size_t an, const void *b, size_t bn, void *o) { CALLPRE(U_OK && a == PW16 && an == PW16N && __CPROVER_r_ok(a, an) && b == D && bn == (size_t)(CUR - D) && __CPROVER_w_ok(o, 20), "the digest is over the password and everything before it"); NWH++; WH_OK = nd_bool(); if (!WH_OK) return 0; for (int i = 0; i < 20; i++) ((u8 *)o)[i] = MD[i]; return 1; }
KeyStore *KeyStoreNew__contract(size_t k, size_t c) { CALLPRE(k == 0 && c == 0, "the store starts empty"); LIVE++; KS = malloc(sizeof *KS); REQUIRES(KS != NULL); KS->cert = NULL; return KS; }
void h_jks(void)
{
    mkdata(); SP = nd_ptr(); SPN = nd_size(); KPW = nd_ptr(); KPN = nd_size(); K = nd_int(); REQUIRES(0 <= K && K < 20); NENT = NFAIL = U_OK = NU = NWH = WH_OK = 0; KeyStore *mark = nd_bool() ? NULL : (KeyStore *)&MD, *ks = mark; KS = NULL;
    for (int i = 0; i < 20; i++) MD[i] = nd_u8();
    _Bool head = SZ >= 12 && (BE32B(D) == 0xfeedfeed || BE32B(D) == 0xcececece) && BE32B(D + 4) == 2; ENUM = SZ >= 12 ? BE32B(D + 8) : 0; CNTBOUND(ENUM); CUR = D + (SZ >= 12 ? 12 : 0);
    int r = parseJKS(D, SZ, SP, SPN, KPW, KPN, &ks); size_t left = END - CUR; _Bool eq = 0; if (left >= 20) { eq = 1; for (int i = 0; i < 20; i++) eq &= CUR[i] == MD[i]; }
    ENSURES(!r == !(head && U_OK && !NFAIL && left >= 20 && WH_OK && eq), "a store is accepted exactly with its header, password, every entry and the digest right"); ENSURES(IMP(r, NENT == ENUM && NWH == 1), "as many entries are read as it says, and the digest is checked"); ENSURES(IMP(r, ks == KS && ks != NULL), "the store is handed over"); ENSURES(IMP(!r, ks == NULL || ks == mark) && LIVE == (r ? 1 : 0), "a refused store is released, and so is the password"); ENSURES(IMP(!r && KS, ks == NULL), "no released store is left behind"); REACH("jks"); if (r) REACH("a store"); if (r && ENUM > 2) REACH("of several entries");
}
#endif
#ifdef UNIT_WHITE
void h_white(void)
{
    u8 *a, *b; size_t an = nd_size(), bn = nd_size(); REQUIRES(an < MAXSIZE && bn < MAXSIZE); a = malloc(an + 1); b = malloc(bn + 1); REQUIRES(a && b); for (int i = 0; i < 20; i++) MD[i] = nd_u8(); u8 o[20]; K = nd_int(); REQUIRES(0 <= K && K < 20); LIVE = MD_FAIL = NUPD = NFINAL = 0; _Bool two = nd_bool(); int r = two ? twoHash(a, an, b, bn, o) : whiteHash(a, an, b, bn, o);
    static const char M[] = "Mighty Aphrodite"; ENSURES(!r == !!MD_FAIL, "the digest fails exactly when the library does"); ENSURES(IMP(r, o[K] == MD[K] && NFINAL == 1), "the digest is delivered"); ENSURES(IMP(r && two, NUPD == 2 && UP[0] == a && UL[0] == an && UP[1] == b && UL[1] == bn), "it is over both parts in order"); ENSURES(IMP(r && !two, NUPD == 3 && UP[0] == a && UL[0] == an && UL[1] == 16 && ((const char *)UP[1])[K & 15] == M[K & 15] && UP[2] == b && UL[2] == bn), "it is over the password, the magic words and the data"); ENSURES(LIVE == 0, "nothing leaks"); REACH("digest"); if (r && two) REACH("two"); if (r && !two) REACH("three");
}
#endif
#ifdef UNIT_UTF16
void h_utf16(void)
{
    INLEN = nd_size(); REQUIRES(INLEN < ((size_t)1 << 28)); LENBOUND(INLEN, 6); INP = malloc(INLEN + 1); REQUIRES(INP != NULL); LIVE = 0; void *o = NULL; size_t n = 0; int r = toUTF16BE(INP, INLEN, &o, &n);
    ENSURES(IMP(r, !ICONV_ERR && INPOS == INLEN && FLUSHED && OUTN > 0), "a conversion succeeds only with all of the input converted, and something of it"); ENSURES(IMP(r, n == OUTN && MCN == n && MCS == MEMDATA && MCD == o && __CPROVER_w_ok(o, n)), "the result is everything converted"); ENSURES(IMP(r, LIVE == 1) && IMP(!r, LIVE == 0) && !ICONV_LIVE && !MEM_LIVE, "everything else is released"); ENSURES(PENDING == 0, "nothing converted is dropped"); REACH("utf16"); if (r) REACH("converted");
}
#endif
#ifdef UNIT_READ
static int NP, PRET; static const void *A1, *A2; static size_t N1, N2; static KeyStore **KSP;
int parseJKS__contract(const void *d, size_t n, const char *sp, size_t sn, const char *kp, size_t kn, KeyStore **ks) { CALLPRE(d == MEMDATA && n == MEMLEN && MEM_LIVE, "the data read is parsed"); CALLPRE(sp == A1 && sn == N1 && kp == A2 && kn == N2 && ks == KSP, "with the passwords given"); NP++; PRET = nd_bool(); return PRET; }
void h_read(void)
{ J = nd_size(); SJ = nd_u8(); A1 = nd_ptr(); A2 = nd_ptr(); N1 = nd_size(); N2 = nd_size(); KSP = nd_ptr(); MEMDATA = malloc(1); REQUIRES(MEMDATA != NULL); LIVE = NP = PRET = 0; int r = readJKS_bio(&SRC, A1, N1, A2, N2, KSP);
  ENSURES(NP == (MEMLEN > 0 && !WFAIL), "what was read is parsed, once"); ENSURES(IMP(NP, MEMLEN == SRCPOS && IMP(J < MEMLEN, MEMJ == SJ) && SRC_END), "everything up to the end is read, every octet in its place"); ENSURES(!r == !(NP && PRET), "the answer is the parser's"); ENSURES(LIVE == 0, "the memory is released"); REACH("read"); if (r) REACH("parsed"); }
int readJKS_bio__contract(BIO *b, const char *sp, size_t sn, const char *kp, size_t kn, KeyStore **ks) { CALLPRE(b == &SRC && FILE_LIVE == 1 && sp == A1 && sn == N1 && kp == A2 && kn == N2 && ks == KSP, "the file is read, with the passwords given"); NR++; RRET = nd_bool(); return RRET; }
void h_file(void)
{ FP = nd_ptr(); A1 = nd_ptr(); A2 = nd_ptr(); N1 = nd_size(); N2 = nd_size(); KSP = nd_ptr(); int r = readJKS(FP, A1, N1, A2, N2, KSP); ENSURES(!r == !(FILE_OK && NR == 1 && RRET), "the answer is that of reading the file, once"); ENSURES(NR == FILE_OK && LIVE == 0, "and nothing else"); REACH("file"); }
#endif
