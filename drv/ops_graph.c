#include "drv.h"
static void jdm(struct spasm_dm *D, int n, int m)
{
	jint("nb", D->nb);
	jints("p", D->p, n); jints("q", D->q, m);
	int nb = D->nb; if (nb < 0) nb = 0;
	if (nb > n + 5) nb = n + 5;
	if (nb > m + 5) nb = m + 5;
	jints("r", D->r, D->nb ? nb + 1 : 0); jints("c", D->c, D->nb ? nb + 1 : 0);
	jints("rr", D->rr, 5); jints("cc", D->cc, 5);
}
static int nochange(struct spasm_csr *A, struct spasm_csr *B)
{
	if (A->n != B->n || A->m != B->m) return 0;
	if (memcmp(A->p, B->p, (A->n + 1) * sizeof *A->p)) return 0;
	i64 nz = A->p[A->n];
	if (memcmp(A->j, B->j, nz * sizeof *A->j)) return 0;
	if (A->x && memcmp(A->x, B->x, nz * sizeof *A->x)) return 0;
	return 1;
}
static struct spasm_csr *copy(struct spasm_csr *A)
{
	struct spasm_csr *B = spasm_csr_alloc(A->n, A->m, A->nzmax, A->field->p, A->x != NULL);
	memcpy(B->p, A->p, (A->n + 1) * sizeof *A->p); memcpy(B->j, A->j, A->p[A->n] * sizeof *A->j);
	if (A->x) memcpy(B->x, A->x, A->p[A->n] * sizeof *A->x);
	return B;
}
/* the first k rows are full: what they got is summed up, the other rows are reported */
static void farmatch(struct spasm_csr *A, int k)
{
	int n = A->n, m = A->m, full = 0, inv = 1;
	int *jm = spasm_malloc(n * sizeof(int)), *im = spasm_malloc(m * sizeof(int));
	jint("size", spasm_maximum_matching(A, jm, im));
	for (int i = 0; i < n; i++) if (jm[i] >= 0) { full += i < k; inv = inv && jm[i] < m && im[jm[i]] == i; }
	for (int j = 0; j < m; j++) if (im[j] >= 0) inv = inv && im[j] < n && jm[im[j]] == j;
	jint("full", full); jint("before", k); jbool("inverse", inv); jints("jmatch", jm + k, n - k);
}
void op_match(void)
{
	struct spasm_csr *A = rmat();
	if (fark(A)) { farmatch(A, fark(A)); (void) ti(); return; }
	struct spasm_csr *A0 = copy(A);
	int *jm = spasm_malloc(A->n * sizeof(int)), *im = spasm_malloc(A->m * sizeof(int));
	int k = spasm_maximum_matching(A, jm, im);
	jint("size", k); jints("jmatch", jm, A->n); jints("imatch", im, A->m);
	/* optional: permuted and restricted matchings */
	int more = ti();
	if (more) {
		int n, m; int *p = rints(&n), *q = rints(&m);
		int *pinv = spasm_pinv(p, n), *qinv = spasm_pinv(q, m);
		jints("pj", spasm_permute_row_matching(n, jm, p, qinv), n);
		jints("pi", spasm_permute_column_matching(m, im, pinv, q), m);
		int a = ti(), b = ti(), c = ti(), d = ti();
		if (b >= a) jints("sub", spasm_submatching(jm, a, b, c, d), b - a);
	}
	jbool("pure", nochange(A, A0));
}
void op_dm(void)
{
	struct spasm_csr *A = rmat(), *A0 = copy(A);
	struct spasm_dm *D = spasm_dulmage_mendelsohn(A);
	jdm(D, A->n, A->m);
	spasm_dm_free(D);
	jbool("pure", nochange(A, A0));
}
/* the first k vertices reach everything: one of them stands for all, and they must be together */
static int quotient(const int *p, const int *r, int nb, int n, int k, int *q, int *s)
{
	int home = -1, t = 0;
	for (int b = 0; b < nb; b++) {
		s[b] = t;
		for (int x = r[b]; x < r[b + 1]; x++) {
			if (x < 0 || x >= n) return -1;
			int v = p[x];
			if (v < 0 || v >= n) return -1;
			if (v >= k) q[t++] = v - k + 1;
			else if (home < 0 || home != b) { if (home >= 0) return -1; home = b; q[t++] = 0; }
		}
	}
	s[nb] = t;
	return t;
}
static void farscc(struct spasm_csr *A, int k)
{
	int n = A->n;
	struct spasm_dm *D = spasm_strongly_connected_components(A), *Q = spasm_dm_alloc(n, n);
	int sane = D->nb >= 0 && D->nb <= n && D->r[0] == 0;
	int *seen = spasm_malloc(n * sizeof(int)); for (int i = 0; i < n; i++) seen[i] = 0;
	for (int i = 0; i < n && sane; i++) sane = D->p[i] >= 0 && D->p[i] < n && !seen[D->p[i]]++;
	int t = sane ? quotient(D->p, D->r, D->nb, n, k, Q->p, Q->r) : -1, u = sane ? quotient(D->q, D->c, D->nb, n, k, Q->q, Q->c) : -1;
	Q->nb = t == u ? D->nb : -1;
	for (int i = 0; i < 5; i++) Q->rr[i] = Q->cc[i] = 0;
	jbool("together", t >= 0);
	jdm(Q, n - k + 1, n - k + 1);
	jbool("pure", 1);
}
void op_scc(void)
{
	struct spasm_csr *A = rmat();
	if (fark(A)) { farscc(A, fark(A)); return; }
	struct spasm_csr *A0 = copy(A);
	struct spasm_dm *D = spasm_strongly_connected_components(A);
	jdm(D, A->n, A->m);
	spasm_dm_free(D);
	jbool("pure", nochange(A, A0));
}
