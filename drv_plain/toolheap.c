/* The heap of a command-line tool that runs out of memory: OOM="K LASTING" in the environment, the number of requests
   and of refusals is left in the file named by OOM_LOG. */
#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include "oom.h"
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_reallocarray(void *, size_t, size_t);
static long *left;		/* requests, refusals, mark: the shared file named by OOM_LOG */
static int no(void)
{
	int r = oom_refuse();
	if (left != NULL) {
		__atomic_store_n(&left[0], oom_n, __ATOMIC_SEQ_CST);
		__atomic_store_n(&left[1], oom_fired, __ATOMIC_SEQ_CST);
	}
	return r;
}
__attribute__((constructor)) static void begin(void)
{
	char *e = getenv("OOM"), *f = getenv("OOM_LOG");
	if (e == NULL || f == NULL)
		return;
	int fd = open(f, O_RDWR);
	left = (fd < 0) ? MAP_FAILED : mmap(NULL, 3 * sizeof(long), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (left == MAP_FAILED || sscanf(e, "%ld %d", &oom_at, &oom_lasting) != 2)
		_exit(99);
	close(fd);
	left[2] = -1;
	oom_mark = left + 2;
	oom_on = 1;
}
void *__wrap_malloc(size_t n) { return no() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return no() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return no() ? NULL : __real_realloc(p, n); }
void *__wrap_reallocarray(void *p, size_t a, size_t b) { return no() ? NULL : __real_reallocarray(p, a, b); }
