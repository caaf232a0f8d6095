/* Contract vocabulary shared by every proof unit. */
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef unsigned char u8;
typedef uint32_t u32;
typedef unsigned long long u64v;

#define REQUIRES(c)        __CPROVER_assume(c)
#define ENSURES(c, name)   __CPROVER_assert((c), "post: " name)
#define FRAME(c, name)     __CPROVER_assert((c), "frame: " name)
#define CALLPRE(c, name)   __CPROVER_assert((c), "callee-pre: " name)
#define CALLPOST(c)        __CPROVER_assume(c)
#define REACH(name)        __CPROVER_assert(0, "REACH " name)
#define IMP(a, b)          (!(a) || (b))

/* loop cut points: first arrival checks the invariant, moves to an arbitrary
 * iteration and assumes it; second arrival checks it again and stops there */
static int dstu_cut_state;
#define CUT(INV, HAVOC) \
  if (dstu_cut_state == 0) { \
    __CPROVER_assert(INV, "loop invariant holds on entry"); \
    HAVOC; __CPROVER_assume(INV); dstu_cut_state = 1; \
  } else { \
    __CPROVER_assert(INV, "loop invariant preserved"); \
    __CPROVER_assume(0); \
  }

/* the same with a state of its own, for functions with several loops */
#define CUTS(S, INV, HAVOC) \
  if (dstu_cut_##S == 0) { \
    __CPROVER_assert(INV, "loop invariant holds on entry"); \
    HAVOC; __CPROVER_assume(INV); dstu_cut_##S = 1; \
  } else { \
    __CPROVER_assert(INV, "loop invariant preserved"); \
    __CPROVER_assume(0); \
  }

static inline u8 nd_u8(void) { u8 x; return x; }
static inline int nd_int(void) { int x; return x; }
static inline unsigned nd_uint(void) { unsigned x; return x; }
static inline size_t nd_size(void) { size_t x; return x; }
static inline u64v nd_u64(void) { u64v x; return x; }
static inline _Bool nd_bool(void) { int x; return x != 0; }

#define LE32B(p) ((u32)(p)[0] | (u32)(p)[1] << 8 | (u32)(p)[2] << 16 | (u32)(p)[3] << 24)
#define LE64B(p) ((u64v)LE32B(p) | (u64v)LE32B((p) + 4) << 32)
#endif
