/* Matrices of more than 2^31 entries that cost a few megabytes: the first rows are full rows of ones, all of them
   mappings of the same 1024 rows (read only); the rows of the case come last. */
#include "drv.h"
static struct { const struct spasm_csr *A; int k; char *b[2]; size_t len[2]; } tab[16];
static int nt;
static void give_up(const char *why) { fprintf(OUT, "{\"harness\":\"%s\"}\n", why); fflush(OUT); _exit(9); }
int fark(const struct spasm_csr *A)
{
	for (int t = 0; t < nt; t++)
		if (tab[t].A == A)
			return tab[t].k;
	return 0;
}
static void *filler(int which, i64 k, int m, i64 tail)
{
	size_t chunk = 4096UL * m, len = k / 1024 * chunk, rest = (4 * tail + 4095) / 4096 * 4096;
	int fd = memfd_create("rows", 0);
	if (fd < 0 || ftruncate(fd, chunk))
		give_up("memfd");
	int *a = mmap(NULL, chunk, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	for (i64 t = 0; t < 1024L * m; t++)
		a[t] = which ? 1 : t % m;
	munmap(a, chunk);
	char *b = mmap(NULL, len + rest + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (b == MAP_FAILED)
		give_up("room");
	for (size_t o = 0; o < len; o += chunk)
		if (mmap(b + o, chunk, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
			give_up("map");
	close(fd);
	if (rest)
		mprotect(b + len, rest, PROT_READ | PROT_WRITE);
	tab[nt].b[which] = b;
	tab[nt].len[which] = len + rest + 4096;
	return b;
}
struct spasm_csr *far_make(struct spasm_csr *A)
{
	int m = A->m;
	i64 k = ((1L << FARBITS) / m / 1024 + 1) * 1024, nz = A->p[A->n];
	if (nt == 16)
		give_up("far");
	struct spasm_csr *B = spasm_csr_alloc(k + A->n, m, 1, A->field->p, A->x != NULL);
	for (i64 i = 0; i <= k; i++)
		B->p[i] = i * m;
	for (int i = 0; i <= A->n; i++)
		B->p[k + i] = k * m + A->p[i];
	free(B->j);
	B->j = filler(0, k, m, nz);
	memcpy(B->j + k * m, A->j, nz * sizeof(int));
	if (A->x) {
		free(B->x);
		B->x = filler(1, k, m, nz);
		memcpy(B->x + k * m, A->x, nz * sizeof(spasm_ZZp));
	}
	B->nzmax = k * m + nz;
	tab[nt].A = B;
	tab[nt++].k = k;
	spasm_csr_free(A);
	return B;
}
void far_done(void)
{
	for (int t = 0; t < nt; t++)
		for (int w = 0; w < 2; w++)
			if (tab[t].b[w]) {
				munmap(tab[t].b[w], tab[t].len[w]);
				tab[t].b[w] = NULL;
			}
	nt = 0;
}
/* one of the first rows, then the last ones */
struct spasm_csr *farfirst(const struct spasm_csr *A)
{
	int k = fark(A), first = k ? A->m : 0, one = k > 0;
	i64 at = A->p[k], nz = A->p[A->n] - at;
	struct spasm_csr *B = spasm_csr_alloc(A->n - k + one, A->m, first + nz, A->field->p, A->x != NULL);
	for (int e = 0; e < first; e++) {
		B->j[e] = A->j[e];
		if (A->x)
			B->x[e] = A->x[e];
	}
	B->p[one] = first;
	for (int i = k; i < A->n; i++)
		B->p[i - k + 1 + one] = first + A->p[i + 1] - at;
	memcpy(B->j + first, A->j + at, nz * sizeof(int));
	if (A->x)
		memcpy(B->x + first, A->x + at, nz * sizeof(spasm_ZZp));
	return B;
}
