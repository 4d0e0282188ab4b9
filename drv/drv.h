#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include <inttypes.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include "spasm.h"
#include "detrt.h"
#include "oom.h"
/* what the driver needs for itself is not refused */
static inline void *own_malloc(size_t n) { oom_hold++; void *p = malloc(n); oom_hold--; return p; }
#define malloc(n) own_malloc(n)

/* token reader */
extern char *TP;                       /* cursor in the current case line */
long long ti(void);                    /* integer token */
char *tw(void);                        /* word token */
double td(void);
/* output */
extern FILE *OUT;
void js(const char *fmt, ...);
void jints(const char *key, const int *v, i64 n);
void jzzp(const char *key, const spasm_ZZp *v, i64 n);
void jsizes(const char *key, const size_t *v, i64 n);
void jmat(const char *key, const struct spasm_csr *A);
void jbytes(const char *key, const u8 *v, i64 n);
void jbool(const char *key, int b);
void jint(const char *key, i64 v);
void ji64(const char *key, i64 v);     /* as decimal string */
struct spasm_csr *rmat(void);          /* read a CSR matrix from the tokens: n m p withvalues then rows */
/* "far BITS MASK op ...": the matrices read (those of MASK, in order) are the last rows of matrices whose first rows
 * fill 2^BITS entries (all of them the same few pages, full of ones).  fark(A): how many rows come before. */
extern int FARBITS, FARMASK;
struct spasm_csr *far_make(struct spasm_csr *A);
void far_done(void);
int fark(const struct spasm_csr *A);
struct spasm_csr *farfirst(const struct spasm_csr *A);   /* one of the first rows, then the last ones */
void rsched(void);                     /* threads policy mean seed depth */
spasm_ZZp *rvec(int *len);
int *rints(int *len);
void rcert(struct spasm_rank_certificate *c);
void cert_loaded(FILE *f);
extern int QUIET;
/* op table */
typedef void (*opfn)(void);
struct op { const char *name; opfn fn; };
extern struct op OPS[];
