/* Contracts of the CFB bulk functions, shared by the proofs of those functions
 * (c02_cfb.c) and by the proof of their caller (c02_evp.c).
 * X0/Y0 is an arbitrary point of the block function under the context's key:
 * E(X0) = Y0.  K is an arbitrary block index. */
static u64v X0, Y0;
static size_t K;
/* enc: out_K = in_K ^ E(out_{K-1});  dec: out_K = in_K ^ E(in_{K-1});  block -1 is the IV */
#define CFB_BLOCK_POST(prev, in_k, out_k) IMP((prev) == X0, (out_k) == ((in_k) ^ Y0))
