/* A source that delivers pieces of any size, then ends or fails; a memory BIO that keeps what is written. */
#ifdef BOUNDED
static int NPIECES;
#define PIECEBOUND REQUIRES(++NPIECES <= 3)
#else
#define PIECEBOUND ((void)0)
#endif
struct bio_st { int x; }; static BIO MEMBIO, SRC; static int MEM_LIVE; static u8 *MEMDATA; static int dstu_cut_a;
const BIO_METHOD *BIO_s_mem(void) { return NULL; }
BIO *BIO_new(const BIO_METHOD *m) { LIVE++; MEM_LIVE++; return &MEMBIO; }
static int FILE_OK, FILE_LIVE; static FILE *FP;
BIO *BIO_new_fp(FILE *f, int c) { CALLPRE(f == FP && c == 0, "BIO_new_fp: the file given, left open"); FILE_OK = nd_bool(); if (!FILE_OK) return NULL; FILE_LIVE++; LIVE++; return &SRC; }
int BIO_free(BIO *b) { if (b) { CALLPRE(b == &MEMBIO ? MEM_LIVE == 1 : b == &SRC && FILE_LIVE == 1, "BIO_free: what was opened, once"); if (b == &MEMBIO) MEM_LIVE--; else FILE_LIVE--; LIVE--; } return 1; }
static size_t SRCPOS, LASTPIECE; static int SRC_END, WFAIL; static const void *PIECE_AT; static u8 SJ;
int BIO_read_ex(BIO *b, void *p, size_t n, size_t *got) { CALLPRE(b == &SRC && !SRC_END && __CPROVER_w_ok(p, n), "BIO_read_ex: the source, room"); CALLPRE(LASTPIECE == 0, "the last piece has been kept"); if (nd_bool()) { SRC_END = 1; *got = 0; return nd_bool() && SRCPOS; } PIECEBOUND; size_t k = nd_size(); REQUIRES(0 < k && k <= n); *got = k; LASTPIECE = k; PIECE_AT = p; if (J >= SRCPOS && J < SRCPOS + k) ((u8 *)p)[J - SRCPOS] = SJ; SRCPOS += k; REQUIRES(SRCPOS < MAXSIZE); return 1; }
static size_t MEMLEN; static u8 MEMJ;
int BIO_write_ex(BIO *b, const void *p, size_t n, size_t *w) { CALLPRE(b == &MEMBIO && MEM_LIVE && p == PIECE_AT && n == LASTPIECE, "the piece just read is kept whole"); if (nd_bool()) { WFAIL = 1; return 0; } LASTPIECE = 0; if (J >= MEMLEN && J < MEMLEN + n) MEMJ = ((const u8 *)p)[J - MEMLEN]; MEMLEN += n; *w = n; return 1; }
long BIO_ctrl(BIO *b, int cmd, long a, void *pp) { CALLPRE(b == &MEMBIO && MEM_LIVE && cmd == BIO_CTRL_INFO, "BIO_get_mem_data: the memory BIO"); *(char **)pp = MEMLEN ? (char *)MEMDATA : NULL; return MEMLEN; }
#define READ_CUT CUTS(a, total == SRCPOS && MEMLEN == SRCPOS && LASTPIECE == 0 && !SRC_END && !WFAIL && bio == &SRC && MEM_LIVE == 1 && IMP(J < MEMLEN, MEMJ == SJ), { total = nd_size(); MEMLEN = SRCPOS = total; REQUIRES(total < MAXSIZE); MEMJ = nd_u8(); bytes = nd_size(); written = nd_size(); __CPROVER_havoc_object(buf); })
static int NP, PRET, NR, RRET; static const void *A1, *A2; static size_t N1, N2; static KeyStore **KSP;
/* the parser, for the reading function */
#define PARSE_BODY { CALLPRE(d == MEMDATA && n == MEMLEN && MEM_LIVE, "the data read is parsed"); CALLPRE(p == A1 && pn == N1 && ks == KSP, "with the password given"); NP++; PRET = nd_bool(); return PRET; }
#define READ_BODY { CALLPRE(b == &SRC && FILE_LIVE == 1 && p == A1 && pn == N1 && ks == KSP, "the file is read, with the password given"); NR++; RRET = nd_bool(); return RRET; }
#define READ_HARNESS(CALL) { J = nd_size(); SJ = nd_u8(); A1 = nd_ptr(); A2 = nd_ptr(); N1 = nd_size(); N2 = nd_size(); KSP = nd_ptr(); MEMDATA = malloc(1); REQUIRES(MEMDATA != NULL); LIVE = NP = PRET = 0; int r = CALL; \
  ENSURES(NP == (MEMLEN > 0 && !WFAIL), "what was read is parsed, once"); ENSURES(IMP(NP, MEMLEN == SRCPOS && IMP(J < MEMLEN, MEMJ == SJ) && SRC_END), "everything up to the end is read, every octet in its place"); ENSURES(!r == !(NP && PRET), "the answer is the parser's"); ENSURES(LIVE == 0, "the memory is released"); REACH("read"); if (r) REACH("parsed"); }
#define FILE_HARNESS(CALL) { FP = nd_ptr(); A1 = nd_ptr(); A2 = nd_ptr(); N1 = nd_size(); N2 = nd_size(); KSP = nd_ptr(); int r = CALL; ENSURES(!r == !(FILE_OK && NR == 1 && RRET), "the answer is that of reading the file, once"); ENSURES(NR == FILE_OK && LIVE == 0, "and nothing else"); REACH("file"); }
