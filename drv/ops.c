#include "drv.h"
#define OPLIST(X) X(match) X(dm) X(scc) X(hist) X(arith) X(sha) X(prng) X(load) X(save) X(pnm) X(device) X(source) \
	X(tri) X(reach) X(schur) X(piv) X(ech) X(dense) X(dtype) X(certv) X(certload) X(asm)
#define X(n) void op_##n(void);
OPLIST(X)
#undef X
#define X(n) { #n, op_##n },
struct op OPS[] = { OPLIST(X) { NULL, NULL } };
