/* The heap of the plain build (linked with --wrap): blocks of 64 KB and more are followed by an unreadable page, so
   that going past the end of a large array ends the run.  Up to BIG bytes the end of the block touches the page
   (alignment apart); beyond, the block starts on a page and grows with mremap, so that untouched memory stays free. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include "oom.h"

void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

#define PG 4096UL
#define SMALL 65536UL
#define BIG (64UL << 20)
#define MAXB 65536
struct blk { char *p, *base; size_t size, len; };      /* len: bytes mapped, guard page included */
static struct blk tab[MAXB];
static int ntab;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static size_t up(size_t s) { return (s + PG - 1) & ~(PG - 1); }

static int find(const void *p)
{
	for (int k = 0; k < ntab; k++)
		if (tab[k].p == p)
			return k;
	return -1;
}

static void *guarded(size_t size)
{
	if (size > (1UL << 46)) {
		errno = ENOMEM;
		return NULL;
	}
	size_t len = up(size) + PG;
	char *b = mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (b == MAP_FAILED) {
		errno = ENOMEM;
		return NULL;
	}
	mprotect(b + len - PG, PG, PROT_NONE);
	char *p = size <= BIG ? b + ((len - PG - size) & ~15UL) : b;
	int room = 0;
	pthread_mutex_lock(&mu);
	if ((room = ntab < MAXB))
		tab[ntab++] = (struct blk) { p, b, size, len };
	pthread_mutex_unlock(&mu);
	if (!room) {                                   /* never seen */
		munmap(b, len);
		return __real_malloc(size);
	}
	if (size <= BIG)
		memset(p, 0xA5, size < 4 * SMALL ? size : 4 * SMALL);
	return p;
}

static int take(void *p, struct blk *out)
{
	pthread_mutex_lock(&mu);
	int k = find(p);
	if (k >= 0) {
		*out = tab[k];
		tab[k] = tab[--ntab];
	}
	pthread_mutex_unlock(&mu);
	return k >= 0;
}

static void *get(size_t size) { return size < SMALL ? __real_malloc(size) : guarded(size); }
void *__wrap_malloc(size_t size) { return oom_refuse() ? NULL : get(size); }

void *__wrap_calloc(size_t a, size_t b)
{
	size_t s;
	if (__builtin_mul_overflow(a, b, &s)) {
		errno = ENOMEM;
		return NULL;
	}
	void *p = __wrap_malloc(s);
	if (p != NULL && s <= BIG)
		memset(p, 0, s);
	return p;
}

void __wrap_free(void *p)
{
	struct blk t;
	if (p == NULL)
		return;
	if (((uintptr_t) p & 15) == 0 && take(p, &t))
		munmap(t.base, t.len);
	else
		__real_free(p);
}

void *__wrap_realloc(void *p, size_t size)
{
	struct blk t;
	if (oom_refuse())
		return NULL;
	if (p == NULL)
		return get(size);
	if (!take(p, &t)) {
		if (size < SMALL)
			return __real_realloc(p, size);
		size_t old = malloc_usable_size(p);
		void *r = guarded(size);
		if (r == NULL)
			return NULL;
		memcpy(r, p, old < size ? old : size);
		__real_free(p);
		return r;
	}
	if (t.p == t.base && t.size > BIG && size > BIG) {
		size_t len = up(size) + PG;
		mprotect(t.base + t.len - PG, PG, PROT_READ | PROT_WRITE);
		char *b = mremap(t.base, t.len, len, MREMAP_MAYMOVE);
		if (b != MAP_FAILED) {
			mprotect(b + len - PG, PG, PROT_NONE);
			t = (struct blk) { b, b, size, len };
		} else
			mprotect(t.base + t.len - PG, PG, PROT_NONE);
		pthread_mutex_lock(&mu);
		tab[ntab++] = t;
		pthread_mutex_unlock(&mu);
		if (b == MAP_FAILED) {
			errno = ENOMEM;
			return NULL;
		}
		return b;
	}
	void *r = get(size);
	if (r == NULL) {
		pthread_mutex_lock(&mu);
		tab[ntab++] = t;
		pthread_mutex_unlock(&mu);
		return NULL;
	}
	memcpy(r, t.p, t.size < size ? t.size : size);
	munmap(t.base, t.len);
	return r;
}

void *__wrap_reallocarray(void *p, size_t a, size_t b)
{
	size_t s;
	if (__builtin_mul_overflow(a, b, &s)) {
		errno = ENOMEM;
		return NULL;
	}
	return __wrap_realloc(p, s);
}
