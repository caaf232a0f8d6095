/* C07: the digest's EVP methods, against the contracts of the hash functions. */
#include "common.h"
#include "gost/gost89.h"
#include "gost/gosthash.h"
#include "evp_md_model.h"
static const gost_subst_block *LAST_SB; static gost_subst_block LAST_SBV; static gost_ctx *INIT_CTX; static int NINIT;
static u8 UNPACKED_FROM_DEF; static const u8 *UNPACK_SRC; static gost_subst_block UNPACKED;
unsigned char default_sbox[64];
void unpack_sbox(unsigned char *p, gost_subst_block *u)
{ CALLPRE(__CPROVER_r_ok(p, 64) && __CPROVER_w_ok(u, sizeof *u), "unpack_sbox: 64 readable bytes"); UNPACK_SRC = p; __CPROVER_havoc_object(&UNPACKED); *u = UNPACKED; }
static _Bool SAME(const gost_subst_block *b) { unsigned q = nd_uint(); REQUIRES(q < sizeof *b); return ((const u8 *)b)[q] == ((const u8 *)&UNPACKED)[q]; }
static _Bool INIT_SAME;
void gost_init(gost_ctx *c, const gost_subst_block *b)
{ CALLPRE(__CPROVER_w_ok(c, sizeof *c) && __CPROVER_r_ok(b, sizeof *b), "gost_init: context and S-boxes"); INIT_CTX = c; NINIT++; INIT_SAME = SAME(b); c->k87[0] = nd_uint(); }
static gost_hash_ctx *HB_C; static const byte *HB_B; static size_t HB_L; static int HB_R, FH_R; static byte *FH_O; static gost_hash_ctx *FH_C;
int hash_block(gost_hash_ctx *c, const byte *b, size_t l) { HB_C = c; HB_B = b; HB_L = l; return HB_R; }
int finish_hash(gost_hash_ctx *c, byte *o) { FH_C = c; FH_O = o; return FH_R; }
#include "md.c"
static struct dstu_digest_ctx D1, D2; static EVP_MD_CTX C1, C2;
static u8 SBX[64];
#define FRESH(d) ((d).dctx.cipher_ctx == &(d).cctx && (d).dctx.len == 0 && (d).dctx.left == 0 && (d).dctx.H[q] == 0 && (d).dctx.S[q] == 0)
static void mk(void)
{ __CPROVER_havoc_object(&D1); __CPROVER_havoc_object(&D2); C1.md_data = &D1; C2.md_data = &D2; C1.pctx = C2.pctx = NULL; NINIT = 0; UNPACK_SRC = NULL; }
void h_init(void)
{
    mk(); unsigned q = nd_uint(); REQUIRES(q < 32);
    EVP_PKEY_CTX pc; EVP_PKEY pk; DSTU_KEY key; u8 *want = default_sbox; int shape = nd_int(); REQUIRES(0 <= shape && shape <= 4);
    key.sbox = NULL; pk.ptr = NULL; pc.pkey = NULL;
    if (shape >= 1) C1.pctx = &pc;
    if (shape >= 2) pc.pkey = &pk;
    if (shape >= 3) pk.ptr = &key;
    if (shape >= 4) { key.sbox = SBX; want = SBX; }
    int r = dstu_md_init(&C1);
    ENSURES(r == 1, "digest init succeeds");
    ENSURES(FRESH(D1), "digest init: zero chaining value, sum and length, nothing pending, own cipher context");
    ENSURES(NINIT == 1 && INIT_CTX == &D1.cctx && INIT_SAME && UNPACK_SRC == want, "digest init: S-box of the signing key if it has one, else the default");
    REACH("md init");
}
void h_forward(void)
{
    mk(); HB_R = nd_int(); FH_R = nd_int(); size_t n = nd_size(); u8 data[4], out[32];
    ENSURES(dstu_md_update(&C1, data, n) == HB_R && HB_C == &D1.dctx && HB_B == data && HB_L == n, "digest update hands all data to the hash of this context");
    ENSURES(dstu_md_final(&C1, out) == FH_R && FH_C == &D1.dctx && FH_O == out, "digest final returns the hash of this context");
    REACH("forward");
}
void h_copy(void)
{
    mk(); D1.dctx.cipher_ctx = &D1.cctx; unsigned q = nd_uint(), k = nd_uint(), t = nd_uint(); REQUIRES(q < 32 && k < 8 && t < 256);
    struct dstu_digest_ctx save = D1; 
    int r = dstu_md_copy(&C2, &C1);
    ENSURES(r == 1, "digest copy succeeds");
    ENSURES(D2.dctx.len == D1.dctx.len && D2.dctx.left == D1.dctx.left && D2.dctx.H[q] == D1.dctx.H[q] && D2.dctx.S[q] == D1.dctx.S[q] && D2.dctx.remainder[q] == D1.dctx.remainder[q], "digest copy has the same hash state");
    ENSURES(D2.cctx.k87[t] == D1.cctx.k87[t] && D2.cctx.k65[t] == D1.cctx.k65[t] && D2.cctx.k43[t] == D1.cctx.k43[t] && D2.cctx.k21[t] == D1.cctx.k21[t], "digest copy has the same S-boxes");
    ENSURES(D2.dctx.cipher_ctx == &D2.cctx, "digest copy uses its own cipher context");
    FRAME(D1.dctx.cipher_ctx == &D1.cctx && D1.dctx.len == save.dctx.len && D1.dctx.left == save.dctx.left && D1.dctx.H[q] == save.dctx.H[q] && D1.dctx.S[q] == save.dctx.S[q] && D1.dctx.remainder[q] == save.dctx.remainder[q] && D1.cctx.k87[t] == save.cctx.k87[t], "digest copy leaves the source alone");
    C1.md_data = NULL;
    ENSURES(dstu_md_copy(&C2, &C1) == 1, "copying an uninitialised digest context is harmless");
    C2.md_data = NULL; C1.md_data = &D1;
    ENSURES(dstu_md_copy(&C2, &C1) == 1, "copying into an uninitialised digest context is harmless");
    REACH("md copy");
}
void h_cleanup(void)
{
    mk(); unsigned b = nd_uint(); REQUIRES(b < sizeof D1);
    ENSURES(dstu_md_cleanup(&C1) == 1 && ((u8 *)&D1)[b] == 0, "digest cleanup wipes the context");
    C1.md_data = NULL; ENSURES(dstu_md_cleanup(&C1) == 1, "digest cleanup accepts a context without state");
    REACH("md cleanup");
}
void h_ctrl(void)
{
    mk(); int cmd = nd_int(), p1 = nd_int(); void *p2 = nd_bool() ? SBX : NULL; unsigned q = nd_uint(); REQUIRES(q < 32);
    D1.dctx.cipher_ctx = &D1.cctx; gost_hash_ctx h = D1.dctx;
    int r = dstu_md_ctrl(&C1, cmd, p1, p2);
    _Bool ok = cmd == DSTU_SET_CUSTOM_SBOX && p2 && p1 == 64;
    ENSURES(!!r == ok, "digest control accepts exactly a 64-byte S-box");
    ENSURES(IMP(ok, NINIT == 1 && INIT_CTX == &D1.cctx && INIT_SAME && UNPACK_SRC == SBX), "digest control installs the given S-box");
    ENSURES(IMP(!ok, NINIT == 0), "a refused digest control changes nothing");
    FRAME(D1.dctx.cipher_ctx == &D1.cctx && D1.dctx.len == h.len && D1.dctx.left == h.left && D1.dctx.H[q] == h.H[q] && D1.dctx.S[q] == h.S[q] && D1.dctx.remainder[q] == h.remainder[q], "digest control keeps the hash state");
    REACH("md ctrl");
}
/* registration */
struct evp_md_st { int type, size, block, app; unsigned long flags; int (*init)(EVP_MD_CTX *); int (*upd)(EVP_MD_CTX *, const void *, size_t); int (*fin)(EVP_MD_CTX *, unsigned char *);
  int (*copy)(EVP_MD_CTX *, const EVP_MD_CTX *); int (*clean)(EVP_MD_CTX *); int (*ctrl)(EVP_MD_CTX *, int, int, void *); };
static EVP_MD THE_MD; static int MD_FREED;
EVP_MD *EVP_MD_meth_new(int t, int pk) { THE_MD.type = t; return nd_bool() ? &THE_MD : NULL; }
void EVP_MD_meth_free(EVP_MD *m) { MD_FREED++; }
#define SETTER(name, field, type) int name(EVP_MD *m, type v) { if (nd_bool()) return 0; m->field = v; return 1; }
SETTER(EVP_MD_meth_set_result_size, size, int)
SETTER(EVP_MD_meth_set_input_blocksize, block, int)
SETTER(EVP_MD_meth_set_app_datasize, app, int)
SETTER(EVP_MD_meth_set_flags, flags, unsigned long)
int EVP_MD_meth_set_init(EVP_MD *m, int (*f)(EVP_MD_CTX *)) { if (nd_bool()) return 0; m->init = f; return 1; }
int EVP_MD_meth_set_update(EVP_MD *m, int (*f)(EVP_MD_CTX *, const void *, size_t)) { if (nd_bool()) return 0; m->upd = f; return 1; }
int EVP_MD_meth_set_final(EVP_MD *m, int (*f)(EVP_MD_CTX *, unsigned char *)) { if (nd_bool()) return 0; m->fin = f; return 1; }
int EVP_MD_meth_set_copy(EVP_MD *m, int (*f)(EVP_MD_CTX *, const EVP_MD_CTX *)) { if (nd_bool()) return 0; m->copy = f; return 1; }
int EVP_MD_meth_set_cleanup(EVP_MD *m, int (*f)(EVP_MD_CTX *)) { if (nd_bool()) return 0; m->clean = f; return 1; }
int EVP_MD_meth_set_ctrl(EVP_MD *m, int (*f)(EVP_MD_CTX *, int, int, void *)) { if (nd_bool()) return 0; m->ctrl = f; return 1; }
void h_register(void)
{
    EVP_MD *m = dstu_digest_new();
    ENSURES(IMP(m, m->size == 32 && m->block == 32 && m->app == sizeof(struct dstu_digest_ctx) && m->init && m->upd && m->fin && m->copy && m->clean && m->ctrl), "the digest method has 32-byte digests and blocks, room for its state, and every method");
    ENSURES(IMP(m, MD_FREED == 0), "a returned digest method is live");
    REACH("md register");
}
