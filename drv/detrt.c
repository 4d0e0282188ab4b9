/*
 * Deterministic runtime for the conformance drivers.
 *
 *  - GOMP / omp entry points implemented with fibers: one OS thread, every interleaving is chosen by a
 *    seeded policy; switches happen at every memory access instrumented by -fsanitize=thread (the
 *    __tsan_* callbacks are defined here) and at every synchronisation operation.
 *  - dynamic / guided schedules hand out one iteration at a time (any schedule the standard allows
 *    for large loops is thereby reachable on small ones).
 *  - malloc & co are wrapped (ld --wrap): blocks are never reused, realloc always moves, fresh memory
 *    is filled with junk, and every instrumented access is checked against the live blocks.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdarg.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include "detrt.h"
#include "oom.h"

#define MAXT 16
#define STACKSZ (1 << 20)
#define ARENA (6ULL << 30)
#define GRAN 6                 /* 64-byte granules */

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t); void __real_free(void *);
void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t); void *__real_memmove(void *, const void *, size_t);
#undef memcpy
#undef memset
#undef memmove
#define memcpy __real_memcpy
#define memset __real_memset
#define memmove __real_memmove

static char errbuf[256];
static int has_error;
static void report(const char *fmt, ...)
{
	if (has_error) return;
	has_error = 1;
	va_list ap; va_start(ap, fmt); vsnprintf(errbuf, sizeof errbuf, fmt, ap); va_end(ap);
}
const char *det_error(void) { return has_error ? errbuf : NULL; }
void det_heap_reset_errors(void) { has_error = 0; }

/* ------------------------------------------------------------------ heap */
struct block { char *base; size_t size; int live; };
static struct block *blk; static uint32_t nblk = 1, capblk;
static uint32_t *gmap;
static char *arena, *atop;
static uint64_t junk = 0x9E3779B97F4A7C15ULL;

static void heap_init(void)
{
	if (arena) return;
	arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	gmap = mmap(NULL, (ARENA >> GRAN) * sizeof *gmap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	capblk = 1 << 22;
	blk = mmap(NULL, capblk * sizeof *blk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (arena == MAP_FAILED || gmap == MAP_FAILED || blk == MAP_FAILED) { perror("mmap"); _exit(3); }
	atop = arena + 64;
}
static inline int in_arena(const void *p) { return (const char *) p >= arena && (const char *) p < arena + ARENA; }

static struct block *find_block(const void *p) { uint32_t b = gmap[((const char *) p - arena) >> GRAN]; return b ? &blk[b] : NULL; }

static void *heap_alloc(size_t size)
{
	heap_init();
	size_t sz = (size + 63) & ~(size_t) 63;
	if (sz < size || sz > ARENA || atop + sz + 128 > arena + ARENA || nblk >= capblk) { errno = ENOMEM; return NULL; }
	char *p = atop;
	atop += (sz ? sz : 64) + 64;            /* red zone */
	uint32_t id = nblk++;
	blk[id] = (struct block) { p, size, 1 };
	for (size_t g = 0; g < (sz ? sz : 64) >> GRAN; g++) gmap[((p - arena) >> GRAN) + g] = id;
	/* junk, so that nothing relies on fresh memory being zero (bounded for huge blocks) */
	size_t lim = size < (1 << 18) ? size : (1 << 18);
	uint64_t s = junk + id * 0xD1342543DE82EF95ULL;
	for (size_t i = 0; i + 8 <= lim; i += 8) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; memcpy(p + i, &s, 8); }
	return p;
}
void *__wrap_malloc(size_t n) { return oom_refuse() ? NULL : heap_alloc(n); }
void *__wrap_calloc(size_t a, size_t b)
{
	if (b && a > ARENA / b) { errno = ENOMEM; return NULL; }
	if (oom_refuse()) return NULL;
	char *p = heap_alloc(a * b);
	if (p) memset(p, 0, a * b);
	return p;
}
static void ev(int kind, long a, long b, long c);
void __wrap_free(void *p)
{
	if (!p) return;
	if (!arena || !in_arena(p)) { __real_free(p); return; }
	struct block *b = find_block(p);
	if (!b || b->base != p) { report("free of an address that is not a block"); return; }
	if (!b->live) { report("double free"); return; }
	b->live = 0;
	/* what was there is gone: somebody who still looks at it must not find the old contents */
	size_t lim = b->size < (1 << 16) ? b->size : (1 << 16);
	memset(p, 0xa5, lim);
}
void *__wrap_realloc(void *p, size_t n)
{
	if (oom_refuse()) return NULL;
	if (!p) return heap_alloc(n);
	if (!arena || !in_arena(p)) return __real_realloc(p, n);
	struct block *b = find_block(p);
	if (!b || b->base != p || !b->live) { report("realloc of a dead or invalid block"); return NULL; }
	if (n == 0) { b->live = 0; return NULL; }       /* as glibc does */
	char *q = heap_alloc(n);
	if (!q) return NULL;
	memcpy(q, p, n < b->size ? n : b->size);
	b->live = 0;
	ev(EV_REALLOC, (long) (b - blk), (long) (find_block(q) - blk), (long) n);
	return q;
}
void *__wrap_reallocarray(void *p, size_t a, size_t b) { return __wrap_realloc(p, a * b); }

long det_block_id(const void *p) { if (!arena || !p || !in_arena(p)) return 0; struct block *b = find_block(p); return b ? b - blk : 0; }
long det_block_size(long id) { return blk[id].size; }
/* ------------------------------------------------------------------ fibers */
enum { READY, BLOCKED, BARRIER, DONE };
struct fiber {
	ucontext_t ctx; void *stack; int state; void *waitlock; int prio; long steps; int fences; long ws; int barrier_gen;
	int single_count;
};
static struct fiber F[MAXT];
static ucontext_t schedctx;
static int T = 1, cur = -1, inpar;
static void (*team_fn)(void *); static void *team_data;
static struct det_opts O = { .threads = 1 };
static uint64_t rng;
static long quantum, nsw, nsteps;
static int scriptpos;
static long changepts[64]; static int nchange;
static int lowprio;
static int nbarrier;

struct det_event *det_ev; long det_nev; static long capev;
static void ev(int kind, long a, long b, long c)
{
	if (!O.trace || (!inpar && kind != EV_REALLOC)) return;
	if (det_nev == capev) {
		capev = capev ? 2 * capev : 4096;
		det_ev = __real_realloc(det_ev, capev * sizeof *det_ev);
	}
	det_ev[det_nev++] = (struct det_event) { cur < 0 ? 0 : cur, kind, a, b, c };
}
long det_switches(void) { return nsw; }

static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }

/* when active, parallel runs use this schedule instead of the one of the case */
struct det_opts det_override; int det_override_on;
static void shadow_reset(void);
void det_config(const struct det_opts *o)
{
	O = *o;
	if (det_override_on && O.threads > 1) {
		int t = O.threads, tr = O.trace;
		O = det_override; O.threads = t; O.trace = tr;
	}
	if (O.threads < 1) O.threads = 1;
	if (O.threads > MAXT) O.threads = MAXT;
	rng = (O.seed + 1) * 0x9E3779B97F4A7C15ULL; if (!rng) rng = 1;
	for (int i = 0; i < 5; i++) rnd();
	scriptpos = 0; nsw = 0; nsteps = 0; det_nev = 0;
	if (O.mean < 1) O.mean = 1;
	nchange = O.depth < 64 ? O.depth : 64;
	for (int i = 0; i < nchange; i++) changepts[i] = rnd() % (O.mean > 50 ? O.mean : 3000);
	shadow_reset();
	lowprio = -1;
}

static void new_quantum(void)
{
	if (O.policy == 1) quantum = 1 + rnd() % (2 * O.mean);
	else quantum = 1L << 40;
}

static int rot;
/* a thread that does not progress by itself lets the others run */
static void forced_yield(void);
static void sched_yield_(void) { int me = cur; swapcontext(&F[me].ctx, &schedctx); }

static void forced_yield(void) { rot = (cur + 1) % T; if (O.policy == 2) F[cur].prio = lowprio--; if (O.policy == 3) scriptpos++; sched_yield_(); }

static inline void step(void)
{
	if (cur < 0 || T == 1) return;
	nsteps++; F[cur].steps++;
	if (O.policy != 1 && (F[cur].steps & 0x3ffff) == 0) { forced_yield(); return; }
	if (O.policy == 2) {
		for (int i = 0; i < nchange; i++)
			if (changepts[i] == nsteps) { F[cur].prio = lowprio--; sched_yield_(); return; }
		return;
	}
	if (O.policy == 1 && --quantum <= 0) sched_yield_();
}
/* accesses to locations that several threads touch, at least one of them writing (policy 4) */
struct shadow { uintptr_t key; short last, multi, written; };
#define NSH 16384
static struct shadow SH[NSH];
static void shadow_reset(void) { memset(SH, 0, sizeof SH); }
static inline void conflict_point(const void *p, int w)
{
	if (cur < 0 || T == 1 || O.policy != 4) return;
	uintptr_t k = (uintptr_t) p >> 2; if ((k & 1) == 0 && 0) return;
	struct shadow *s = &SH[(k * 0x9E3779B97F4A7C15ULL) >> 50];
	if (s->key != k) { *s = (struct shadow) { k, cur, 0, w }; return; }
	if (s->last != cur) s->multi = 1;
	s->last = cur;
	if (w) s->written = 1;
	if (s->multi && s->written && rnd() % O.mean == 0) sched_yield_();
}
/* synchronisation point: switch more often */
static inline void syncpoint(void)
{
	if (cur < 0 || T == 1) return;
	if (O.policy == 1 || O.policy == 4) { if (rnd() & 1) sched_yield_(); }
	else step();
}
static void fence_point(void)
{
	if (cur < 0 || T == 1) return;
	/* a thread that keeps fencing without any other progress is spinning */
	if (++F[cur].fences > 3) {
		F[cur].fences = 0;
		forced_yield();
	} else syncpoint();
}

static void load_point(void)
{
	if (cur < 0 || T == 1) return;
	if (++F[cur].fences > 64) { F[cur].fences = 0; forced_yield(); } else syncpoint();
}

static void entry(void) { team_fn(team_data); F[cur].state = DONE; for (;;) swapcontext(&F[cur].ctx, &schedctx); }

static int pick(void)
{
	int n = 0, c[MAXT];
	for (int t = 0; t < T; t++) if (F[t].state == READY) c[n++] = t;
	if (n == 0) return -1;
	if (O.policy == 0) { for (int k = 0; k < n; k++) if (c[k] >= rot) return c[k]; return c[0]; }
	if (O.policy == 1 || O.policy == 4) return c[rnd() % n];
	if (O.policy == 2) {
		int b = c[0];
		for (int k = 1; k < n; k++) if (F[c[k]].prio > F[b].prio) b = c[k];
		return b;
	}
	/* script */
	while (scriptpos < O.nscript) {
		int t = O.script[scriptpos];
		if (t >= 0 && t < T && F[t].state == READY) return t;
		scriptpos++;                       /* thread finished or blocked: skip */
	}
	return c[nsw % n];
}

/* loops */
struct ws { long next, end, incr; int inited; };
static struct ws W[4096]; static long nws;

static void run_team(void (*fn)(void *), void *data, unsigned nth)
{
	if (inpar) { /* nested: serialised */
		int c = cur, t = T; (void) c; (void) t;
		fn(data);
		return;
	}
	T = (nth && (int) nth < O.threads) ? (int) nth : O.threads;
	if (O.policy == 4) shadow_reset();
	team_fn = fn; team_data = data; inpar = 1; nbarrier = 0; rot = 0;
	memset(W, 0, sizeof W); nws = 0;
	for (int t = 0; t < T; t++) {
		getcontext(&F[t].ctx);
		if (!F[t].stack) F[t].stack = mmap(NULL, STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		F[t].ctx.uc_stack.ss_sp = F[t].stack; F[t].ctx.uc_stack.ss_size = STACKSZ; F[t].ctx.uc_link = NULL;
		makecontext(&F[t].ctx, entry, 0);
		F[t].state = READY; F[t].prio = rnd() % 1000; F[t].steps = 0; F[t].fences = 0; F[t].ws = 0; F[t].waitlock = NULL;
		F[t].barrier_gen = 0; F[t].single_count = 0;
	}
	cur = 0; ev(EV_PAR, T, 0, 0);
	for (;;) {
		int t = pick();
		if (t < 0) {
			int done = 1;
			for (int k = 0; k < T; k++) if (F[k].state != DONE) done = 0;
			if (done) break;
			/* everybody waits: barrier complete? */
			int all = 1, any = 0;
			for (int k = 0; k < T; k++) { if (F[k].state == BLOCKED) all = 0; if (F[k].state == BARRIER) any = 1; }
			if (all && any) { for (int k = 0; k < T; k++) if (F[k].state == BARRIER) F[k].state = READY; ev(EV_PAR, T, 0, 0); continue; }
			_exit(7);
		}
		nsw++;
		cur = t; new_quantum();
		swapcontext(&schedctx, &F[t].ctx);
	}
	cur = 0; ev(EV_PAREND, 0, 0, 0);
	cur = -1; inpar = 0; T = 1;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nth, unsigned flags) { (void) flags; run_team(fn, data, nth); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nth, unsigned flags) { (void) flags; run_team(fn, data, nth); return 1; }

void GOMP_barrier(void) { if (cur < 0 || T == 1) return; F[cur].fences = 0; F[cur].state = BARRIER; sched_yield_(); }
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }

static struct ws *my_ws(void) { int c = cur < 0 ? 0 : cur; return &W[F[c].ws % 4096]; }
static bool loop_next(long *is, long *ie)
{
	struct ws *w = my_ws();
	syncpoint();
	if (cur >= 0) F[cur].fences = 0;
	if ((w->incr > 0 && w->next >= w->end) || (w->incr < 0 && w->next <= w->end)) return false;
	*is = w->next; *ie = w->next + w->incr; w->next += w->incr;
	if ((w->incr > 0 && *ie > w->end) || (w->incr < 0 && *ie < w->end)) *ie = w->end;
	ev(EV_ITER, *is, 0, 0);
	return true;
}
static struct ws serialW;
static bool loop_start(long s, long e, long inc, long *is, long *ie)
{
	if (cur < 0) { *is = s; *ie = e; serialW.inited = 1; return inc > 0 ? s < e : s > e; }
	F[cur].ws++;
	struct ws *w = my_ws();
	if (!w->inited) { w->next = s; w->end = e; w->incr = inc; w->inited = 1; }
	return loop_next(is, ie);
}
#define LOOPS(name) \
bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { (void) c; return loop_start(s, e, i, is, ie); } \
bool GOMP_loop_##name##_next(long *is, long *ie) { if (cur < 0) return false; return loop_next(is, ie); } \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { (void) c; (void) up; return loop_start(s, e, i, (long *) is, (long *) ie); } \
bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { if (cur < 0) return false; return loop_next((long *) is, (long *) ie); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(static)
#define RLOOPS(name) \
bool GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie) { return loop_start(s, e, i, is, ie); } \
bool GOMP_loop_##name##_next(long *is, long *ie) { if (cur < 0) return false; return loop_next(is, ie); }
RLOOPS(runtime) RLOOPS(nonmonotonic_runtime) RLOOPS(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { syncpoint(); }
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }

struct ploop { void (*fn)(void *); void *data; long s, e, i; };
static struct ploop PL;
static void ploop_tramp(void *d)
{
	struct ploop *p = d;
	if (cur >= 0) { F[cur].ws++; struct ws *w = my_ws(); if (!w->inited) { w->next = p->s; w->end = p->e; w->incr = p->i; w->inited = 1; } }
	p->fn(p->data);
}
#define PLOOPS(name) \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nth, long s, long e, long i, long c, unsigned fl) \
{ (void) c; (void) fl; PL = (struct ploop) { fn, data, s, e, i }; run_team(ploop_tramp, &PL, nth); }
PLOOPS(dynamic) PLOOPS(guided) PLOOPS(nonmonotonic_dynamic) PLOOPS(nonmonotonic_guided) PLOOPS(static)
#define PRLOOPS(name) \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nth, long s, long e, long i, unsigned fl) \
{ (void) fl; PL = (struct ploop) { fn, data, s, e, i }; run_team(ploop_tramp, &PL, nth); }
PRLOOPS(runtime) PRLOOPS(nonmonotonic_runtime) PRLOOPS(maybe_nonmonotonic_runtime)

/* locks */
struct lk { void *key; int owner; int depth; };
static struct lk LK[256]; static int nlk;
static struct lk *getlk(void *key) { for (int i = 0; i < nlk; i++) if (LK[i].key == key) return &LK[i]; LK[nlk] = (struct lk) { key, -1, 0 }; return &LK[nlk++]; }
static void lock(void *key)
{
	if (cur < 0 || T == 1) return;
	syncpoint();
	struct lk *l = getlk(key);
	while (l->owner >= 0) { F[cur].state = BLOCKED; F[cur].waitlock = key; sched_yield_(); }
	l->owner = cur; F[cur].fences = 0;
	ev(EV_CENTER, (long) (l - LK), 0, 0);
}
static void unlock(void *key)
{
	if (cur < 0 || T == 1) return;
	struct lk *l = getlk(key);
	ev(EV_CEXIT, (long) (l - LK), 0, 0);
	l->owner = -1; F[cur].fences = 0;
	for (int t = 0; t < T; t++) if (F[t].state == BLOCKED && F[t].waitlock == key) { F[t].state = READY; F[t].waitlock = NULL; }
	syncpoint();
}
static char anon_lock, atomic_lock;
void GOMP_critical_start(void) { lock(&anon_lock); }
void GOMP_critical_end(void) { unlock(&anon_lock); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&atomic_lock); }
void GOMP_atomic_end(void) { unlock(&atomic_lock); }
void GOMP_ordered_start(void) { lock(&atomic_lock); }
void GOMP_ordered_end(void) { unlock(&atomic_lock); }
typedef struct { int x; } omp_lk;
void omp_init_lock(void *l) { (void) l; }
void omp_destroy_lock(void *l) { (void) l; }
void omp_set_lock(void *l) { lock(l); }
void omp_unset_lock(void *l) { unlock(l); }
int omp_test_lock(void *l) { if (cur < 0 || T == 1) return 1; syncpoint(); struct lk *k = getlk(l); if (k->owner >= 0) return 0; k->owner = cur; return 1; }
void omp_init_nest_lock(void *l) { (void) l; }
void omp_destroy_nest_lock(void *l) { (void) l; }
void omp_set_nest_lock(void *l) { struct lk *k = getlk(l); if (cur >= 0 && k->owner == cur) { k->depth++; return; } lock(l); k->depth = 1; }
void omp_unset_nest_lock(void *l) { struct lk *k = getlk(l); if (--k->depth <= 0) unlock(l); }

bool GOMP_single_start(void)
{
	if (cur < 0 || T == 1) return true;
	static int taken[4096]; static void *gen;
	if (gen != team_data || nws == 0) { gen = team_data; nws = 1; memset(taken, 0, sizeof taken); }
	int k = F[cur].single_count++ % 4096;
	syncpoint();
	if (taken[k]) return false;
	taken[k] = 1; return true;
}
unsigned GOMP_sections_start(unsigned n) { long is, ie; return loop_start(1, (long) n + 1, 1, &is, &ie) ? (unsigned) is : 0; }
static void par_sections_tramp(void *d) { struct ploop *p = d; if (cur >= 0) { F[cur].ws++; struct ws *w = my_ws(); if (!w->inited) { w->next = 1; w->end = p->e; w->incr = 1; w->inited = 1; } } p->fn(p->data); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nth, unsigned n, unsigned fl) { (void) fl; PL = (struct ploop) { fn, data, 1, (long) n + 1, 1 }; run_team(par_sections_tramp, &PL, nth); }
bool GOMP_sections_end_cancel(void) { GOMP_barrier(); return false; }
unsigned GOMP_sections_next(void) { long is, ie; if (cur < 0) return 0; return loop_next(&is, &ie) ? (unsigned) is : 0; }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) { syncpoint(); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool ifc, unsigned fl, void **dep, int prio, void *detach)
{
	(void) al; (void) ifc; (void) fl; (void) dep; (void) prio; (void) detach;
	if (cpy) { char *buf = __real_malloc(sz + al); char *a = (char *) (((uintptr_t) buf + al - 1) & ~(uintptr_t) (al - 1)); cpy(a, data); fn(a); __real_free(buf); }
	else fn(data);
}
/* single with copyprivate: the thread that runs it leaves the value, barrier, the others fetch it */
static void *copy_data;
void *GOMP_single_copy_start(void) { if (GOMP_single_start()) return NULL; GOMP_barrier(); return copy_data; }
void GOMP_single_copy_end(void *d) { copy_data = d; GOMP_barrier(); }
bool GOMP_cancel(int which, bool go) { (void) which; (void) go; return false; }
bool GOMP_cancellation_point(int which) { (void) which; return false; }
/* ordered loops: one thread runs all the iterations, in order */
#define OLOOPS(name) \
bool GOMP_loop_ordered_##name##_start(long s, long e, long i, long c, long *is, long *ie) { (void) c; bool g = loop_start(s, e, i, is, ie); if (g && cur >= 0) { *ie = e; my_ws()->next = e; } return g; } \
bool GOMP_loop_ordered_##name##_next(long *is, long *ie) { if (cur < 0) return false; return loop_next(is, ie); }
OLOOPS(static) OLOOPS(dynamic) OLOOPS(guided)
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, unsigned fl, unsigned long nt, int prio, long s, long e, long st)
{
	(void) fl; (void) nt; (void) prio; (void) st;
	char *buf = __real_malloc(sz + al + 16); char *a = (char *) (((uintptr_t) buf + al - 1) & ~(uintptr_t) (al - 1));
	if (cpy) cpy(a, data); else memcpy(a, data, sz);
	((long *) a)[0] = s; ((long *) a)[1] = e; fn(a); __real_free(buf);
}
void GOMP_taskwait(void) { syncpoint(); }
void GOMP_taskyield(void) { syncpoint(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

int omp_get_thread_num(void) { return cur < 0 ? 0 : cur; }
int omp_get_num_threads(void) { return inpar ? T : 1; }
int omp_get_max_threads(void) { return O.threads; }
int omp_get_num_procs(void) { return O.threads; }
void omp_set_num_threads(int n) { (void) n; }
int omp_in_parallel(void) { return inpar && T > 1; }
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int n) { (void) n; }
void omp_set_schedule(int k, int c) { (void) k; (void) c; }
void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : l == 1 && inpar ? (cur < 0 ? 0 : cur) : -1; }
int omp_get_team_size(int l) { return l == 0 ? 1 : l == 1 && inpar ? T : -1; }
int omp_in_final(void) { return 0; }
int omp_get_proc_bind(void) { return 0; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int d) { (void) d; }
int omp_get_nested(void) { return 0; }
void omp_set_nested(int d) { (void) d; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_level(void) { return inpar; }
int omp_get_active_level(void) { return inpar; }
double omp_get_wtime(void) { return nsteps * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }

/* user events (guarded hooks in the sources) */
void det_user_event(int code, long a, long b, long c)
{
	ev(EV_USER, code, a, (b & 0xffffffffL) | (c << 32));
	if (cur < 0 || T == 1) return;
	if (O.policy == 3) { scriptpos++; sched_yield_(); }
	else if (O.policy == 1 && (rnd() & 1)) sched_yield_();
}

/* ------------------------------------------------------------------ tsan callbacks */
static inline void chk(const void *p, size_t n, int w)
{
	if (arena && in_arena(p)) {
		struct block *b = find_block(p);
		if (!b) report("%s of %zu bytes outside any block", w ? "write" : "read", n);
		else if ((const char *) p < b->base || (const char *) p + n > b->base + b->size)
			report("%s of %zu bytes at offset %ld of a block of %zu bytes", w ? "write" : "read", n, (long) ((const char *) p - b->base), b->size);
		else if (!b->live) report("%s of a block after it was freed or moved", w ? "write" : "read");
		if (w && b && O.trace && inpar) ev(EV_W, (long) (b - blk), (long) ((const char *) p - b->base), (long) n);
	}
	conflict_point(p, w);
	step();
}
#define RW(n) \
void __tsan_read##n(void *p) { chk(p, n, 0); } \
void __tsan_write##n(void *p) { chk(p, n, 1); } \
void __tsan_unaligned_read##n(void *p) { chk(p, n, 0); } \
void __tsan_unaligned_write##n(void *p) { chk(p, n, 1); } \
void __tsan_volatile_read##n(void *p) { chk(p, n, 0); } \
void __tsan_volatile_write##n(void *p) { chk(p, n, 1); } \
void __tsan_unaligned_volatile_read##n(void *p) { chk(p, n, 0); } \
void __tsan_unaligned_volatile_write##n(void *p) { chk(p, n, 1); } \
void __tsan_read_write##n(void *p) { chk(p, n, 1); } \
void __tsan_unaligned_read_write##n(void *p) { chk(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
void __tsan_read_range(void *p, size_t n) { if (n) chk(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { if (n) chk(p, n, 1); }
void __tsan_vptr_update(void **p, void *v) { (void) p; (void) v; }
void __tsan_vptr_read(void **p) { (void) p; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { if (n) { chk(d, n, 1); chk(s, n, 0); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { if (n) { chk(d, n, 1); chk(s, n, 0); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { if (n) chk(d, n, 1); return memset(d, c, n); }
/* library calls that touch the heap in bulk */
void *__wrap_memcpy(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { return __tsan_memset(d, c, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { return __tsan_memmove(d, s, n); }

void __tsan_atomic_thread_fence(int mo) { (void) mo; fence_point(); }
void __tsan_atomic_signal_fence(int mo) { (void) mo; }
#define AT(bits, ty) \
ty __tsan_atomic##bits##_load(const volatile ty *p, int mo) { (void) mo; chk((void *) p, sizeof(ty), 0); load_point(); return *p; } \
void __tsan_atomic##bits##_store(volatile ty *p, ty v, int mo) { (void) mo; chk((void *) p, sizeof(ty), 1); syncpoint(); *p = v; if (cur >= 0) F[cur].fences = 0; } \
ty __tsan_atomic##bits##_exchange(volatile ty *p, ty v, int mo) { (void) mo; chk((void *) p, sizeof(ty), 1); syncpoint(); ty o = *p; *p = v; if (cur >= 0) F[cur].fences = 0; return o; } \
ty __tsan_atomic##bits##_fetch_add(volatile ty *p, ty v, int mo) { (void) mo; chk((void *) p, sizeof(ty), 1); syncpoint(); ty o = *p; *p = o + v; if (cur >= 0) F[cur].fences = 0; return o; } \
ty __tsan_atomic##bits##_fetch_sub(volatile ty *p, ty v, int mo) { (void) mo; chk((void *) p, sizeof(ty), 1); syncpoint(); ty o = *p; *p = o - v; if (cur >= 0) F[cur].fences = 0; return o; } \
ty __tsan_atomic##bits##_fetch_and(volatile ty *p, ty v, int mo) { (void) mo; chk((void *) p, sizeof(ty), 1); syncpoint(); ty o = *p; *p = o & v; return o; } \
ty __tsan_atomic##bits##_fetch_or(volatile ty *p, ty v, int mo) { (void) mo; chk((void *) p, sizeof(ty), 1); syncpoint(); ty o = *p; *p = o | v; return o; } \
ty __tsan_atomic##bits##_fetch_nand(volatile ty *p, ty v, int mo) { (void) mo; chk((void *) p, sizeof(ty), 1); syncpoint(); ty o = *p; *p = ~(o & v); return o; } \
ty __tsan_atomic##bits##_fetch_xor(volatile ty *p, ty v, int mo) { (void) mo; chk((void *) p, sizeof(ty), 1); syncpoint(); ty o = *p; *p = o ^ v; return o; } \
bool __tsan_atomic##bits##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int mo, int fmo) { (void) mo; (void) fmo; chk((void *) p, sizeof(ty), 1); syncpoint(); if (*p == *e) { *p = v; if (cur >= 0) F[cur].fences = 0; return true; } *e = *p; return false; } \
bool __tsan_atomic##bits##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); } \
ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *p, ty e, ty v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
size_t det_heap_used(void) { return arena ? (size_t) (atop - arena) : 0; }
