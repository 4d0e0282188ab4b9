#ifndef DETRT_H
#define DETRT_H
#include <stdint.h>
/* Deterministic OpenMP runtime + heap checker used by all drivers. */
struct det_opts {
	int threads;          /* team size */
	int policy;           /* 0 sequential-ish, 1 random walk, 2 priorities (PCT), 3 event script, 4 switches where threads communicate */
	int mean;             /* mean quantum (ordinary accesses) for policy 1 */
	uint64_t seed;
	int depth;            /* number of priority change points (policy 2) */
	const int *script;    /* policy 3: thread to run next, one per event */
	int nscript;
	int trace;            /* record runtime events */
};
void det_config(const struct det_opts *o);
extern struct det_opts det_override; extern int det_override_on;
void det_heap_reset_errors(void);
const char *det_error(void);       /* NULL or description of the first memory / runtime error */
/* recorded events (trace=1): flat ints */
struct det_event { int tid, kind; long a, b, c; };
enum { EV_PAR = 1, EV_PAREND, EV_CENTER, EV_CEXIT, EV_REALLOC, EV_W, EV_ATOMIC, EV_ITER, EV_USER };
extern struct det_event *det_ev;
extern long det_nev;
void det_watch(int on);
long det_switches(void);
long det_block_id(const void *p);      /* heap block holding p, 0 if none */
long det_block_size(long id);
#endif
