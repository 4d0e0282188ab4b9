import sys; sys.path.insert(0,'/tmp')
from mkseed import mk
def only(i): return len(sys.argv) < 2 or i in sys.argv[1:]
H='#include "demo_common.h"\n'
S="src/spasm_"
if only("fast_init"):
    mk("fast_init","C18",[(S+"ZZp.c","	i64 p = F->p;\n	return NORMALISE(F, x % p);","	i64 q = ((double) x) * F->dinvp;     /* no division */\n	return NORMALISE(F, x - q * F->p);")],
     "spasm_ZZp_init on a 64-bit integer with more than 53 significant bits and a modulus such that the rounding of the quotient is visible", "the residue returned is not congruent to the argument / not in the canonical range",
     H+'''
int main(void) { i64 ps[] = {3, 257, 42013, 65537, 189812533, 4294967291LL}; for (int k = 0; k < 6; k++) { spasm_field F; spasm_field_init(ps[k], F); i64 p = ps[k];
	for (int t = 0; t < 200000; t++) { i64 x = (i64) rnd(); x >>= t % 40; spasm_ZZp r = spasm_ZZp_init(F, x); CHECK(md(r, p) == md(x, p) && r <= p / 2 && r >= p / 2 - p + 1, "p=%lld x=%lld r=%d", (ll) p, (ll) x, r); } }
	return 0; }
''')
if only("axpy_delayed"):
    mk("axpy_delayed","C16",[(S+"spmv.c","""	for (int i = 0; i < n; i++)
		for (i64 px = Ap[i]; px < Ap[i + 1]; px++) {
			int j = Aj[px];
			y[i] = spasm_ZZp_axpy(A->field, x[j], Ax[px], y[i]);
		}
""","""	for (int i = 0; i < n; i++) {
		i64 acc = y[i];                  /* reduce only once */
		for (i64 px = Ap[i]; px < Ap[i + 1]; px++)
			acc += (i64) x[Aj[px]] * Ax[px];
		y[i] = spasm_ZZp_init(A->field, acc);
	}
""")],
     "a modulus close to 2^32 and a row with at least two large coefficients meeting large coordinates of the same sign", "spasm_Axpy returns a wrong vector (64-bit overflow of the accumulated products)",
     H+'''
int main(void) { i64 p = 4294967291LL; int n = 20, m = 30; struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (rnd() % 2) spasm_add_entry(T, i, j, (i64) (rnd() % p));
	struct spasm_csr *A = spasm_compress(T); ll *D = densify(A);
	for (int t = 0; t < 50; t++) { spasm_ZZp x[30], y[20]; ll z[20];
		for (int j = 0; j < m; j++) x[j] = spasm_ZZp_init(A->field, (i64) (rnd() % p));
		for (int i = 0; i < n; i++) { y[i] = spasm_ZZp_init(A->field, (i64) (rnd() % p)); z[i] = md(y[i], p); for (int j = 0; j < m; j++) z[i] = md(z[i] + mulm(md(x[j], p), D[i * m + j], p), p); }
		spasm_Axpy(A, x, y); for (int i = 0; i < n; i++) CHECK(md(y[i], p) == z[i], "row %d", i); }
	return 0; }
''')
if only("perm_match_unmatched"):
    mk("perm_match_unmatched","C12",[(S+"matching.c","		if (imatch[q[j]] == -1) {\n			iimatch[j] = -1;\n		} else {\n			iimatch[j] = pinv[imatch[q[j]]];\n		}","		int i = imatch[q[j]];\n		iimatch[j] = (imatch[j] < 0) ? -1 : pinv[spasm_max(i, 0)];")],
     "spasm_permute_column_matching with a matching that leaves columns unmatched and a column permutation that moves them", "unmatched columns of the permuted matrix are announced as matched, and conversely",
     H+'''
int main(void) { int n = 6, m = 8; for (int t = 0; t < 200; t++) { int im[8], p[6], pinv[6], q[8];
	for (int i = 0; i < n; i++) p[i] = i; for (int j = 0; j < m; j++) { q[j] = j; im[j] = -1; }
	for (int i = n - 1; i > 0; i--) { int k = rnd() % (i + 1), z = p[i]; p[i] = p[k]; p[k] = z; } for (int i = 0; i < n; i++) pinv[p[i]] = i;
	for (int i = m - 1; i > 0; i--) { int k = rnd() % (i + 1), z = q[i]; q[i] = q[k]; q[k] = z; }
	for (int i = 0; i < n; i++) if (rnd() % 2) im[i + rnd() % 2] = i;
	int used[6] = {0}; for (int j = 0; j < m; j++) if (im[j] >= 0) { if (used[im[j]]) im[j] = -1; else used[im[j]] = 1; }
	int *r = spasm_permute_column_matching(m, im, pinv, q); for (int j = 0; j < m; j++) CHECK(r[j] == (im[q[j]] < 0 ? -1 : pinv[im[q[j]]]), "column %d", j); free(r); }
	return 0; }
''')
if only("diag_last"):
    mk("diag_last","C11",[(S+"triangular.c","""		for (i64 px = Lp[i]; px < Lp[i + 1]; px++)
			if (Lj[px] == j) {
				diagonal_entry = Lx[px];
				break; 
			}""","""		if (p == NULL)                   /* lower triangular: the diagonal closes the row */
			diagonal_entry = Lx[Lp[i + 1] - 1];
		else for (i64 px = Lp[i]; px < Lp[i + 1]; px++)
			if (Lj[px] == j) {
				diagonal_entry = Lx[px];
				break; 
			}""")],
     "spasm_dense_back_solve with the identity permutation on a lower-triangular matrix whose rows are not sorted by column", "the vector returned is not a solution of x*L = b",
     H+'''
int main(void) { i64 p = 42013; int n = 12; struct spasm_triplet *T = spasm_triplet_alloc(n, n, 1, p, true);
	for (int i = 0; i < n; i++) { spasm_add_entry(T, i, i, 2 + rnd() % 1000); for (int j = 0; j < i; j++) if (rnd() % 2) spasm_add_entry(T, i, j, 1 + rnd() % 1000); }
	struct spasm_csr *A = spasm_compress(T); ll *D = densify(A); spasm_ZZp b[12], c[12], x[12]; for (int j = 0; j < n; j++) c[j] = b[j] = spasm_ZZp_init(A->field, rnd() % p);
	spasm_dense_back_solve(A, b, x, NULL); for (int j = 0; j < n; j++) { ll s = 0; for (int i = 0; i < n; i++) s = md(s + mulm(md(x[i], p), D[i * n + j], p), p); CHECK(s == md(c[j], p), "column %d", j); }
	return 0; }
''')
if only("stale_survivors"):
    mk("stale_survivors","C08",[(S+"pivots.c","""			/* reset w back to zero */
			for (i64 px = Ap[i]; px < Ap[i + 1]; px++) {
				int j = Aj[px];
				w[j] = 0;
			}
			for (int px""","""			/* reset w back to zero */
			for (i64 px = Ap[i]; surviving == 0 && px < Ap[i + 1]; px++) {
				int j = Aj[px];
				w[j] = 0;
			}
			for (int px""")],
     "two rows examined by the same thread: the first one keeps several candidate columns, the second one reaches one of them by an alternating path", "the set of pivots contains a cycle: U is not (permuted) triangular",
     H+'''
int main(void) { for (int t = 0; t < 3000; t++) { i64 p = 65537; int n = 10 + rnd() % 20, m = 10 + rnd() % 20; struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < n; i++) { int k = 1 + rnd() % 4; while (k--) spasm_add_entry(T, i, rnd() % m, 1 + rnd() % 1000); }
	struct spasm_csr *A = spasm_compress(T); spasm_triplet_free(T); struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.max_round = 1; o.enable_dense = 0;
	int *P = malloc(n * sizeof(int)); struct spasm_lu F; memset(&F, 0, sizeof F); F.U = spasm_csr_alloc(n, m, spasm_nnz(A), p, true); F.U->n = 0; F.U->p[0] = 0; F.qinv = malloc(m * sizeof(int)); for (int j = 0; j < m; j++) F.qinv[j] = -1;
	int r = spasm_pivots_extract_structural(A, NULL, &F, P, &o); 
	for (int i = 0; i < r; i++) for (i64 k = F.U->p[i] + 1; k < F.U->p[i + 1]; k++) { int q = F.qinv[F.U->j[k]]; CHECK(q < 0 || q > i, "trial %d: row %d uses the pivot of row %d", t, i, q); }
	free(P); spasm_csr_free(A); spasm_csr_free(F.U); free(F.qinv); }
	return 0; }
''', env="OMP_NUM_THREADS=1")
if only("journal_publish"):
    mk("journal_publish","C08",[(S+"pivots.c","""					int result = register_pivot(i, j, pinv, qinv);
					journal[npiv] = j;
					#pragma omp atomic update
					npiv += result;
""","""					#pragma omp atomic update
					npiv += register_pivot(i, j, pinv, qinv);
					journal[npiv - 1] = j;
"""),(S+"pivots.c","""				} else {
					/* failure */
					#pragma omp atomic read
					npiv_target = npiv;
				}
			}
""","""					npiv_local = -1;
				}
			}
			if (npiv_local >= 0) {
				/* failure */
				#pragma omp atomic read
				npiv_target = npiv;
			}
""")],
     "a thread whose commit fails re-reads npiv, outside the critical section, between the increment of npiv by another thread and its write in the journal", "the replay reads a journal entry that is not written yet: the set of pivots may contain a cycle, or memory is read out of bounds",
     H+'''
int main(void) { double t0 = spasm_wtime(); for (int t = 0; spasm_wtime() - t0 < 60; t++) { i64 p = 65537; int n = 60000, m = 30000; struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < n; i++) { spasm_add_entry(T, i, m - 1 - rnd() % 3, 1); int b = rnd() % (m - 30), k = 3; while (k--) spasm_add_entry(T, i, 5 + (b + rnd() % 40) % (m - 10), 1 + rnd() % 1000); spasm_add_entry(T, i, rnd() % 5, 1);}
	struct spasm_csr *A = spasm_compress(T); spasm_triplet_free(T); struct echelonize_opts o; spasm_echelonize_init_opts(&o);
	int *P = malloc(n * sizeof(int)); struct spasm_lu F; memset(&F, 0, sizeof F); F.U = spasm_csr_alloc(n, m, spasm_nnz(A), p, true); F.U->n = 0; F.U->p[0] = 0; F.qinv = malloc(m * sizeof(int)); for (int j = 0; j < m; j++) F.qinv[j] = -1;
	void *junk = malloc(n * sizeof(int)); memset(junk, 0x7f, n * sizeof(int)); free(junk);
	int r = spasm_pivots_extract_structural(A, NULL, &F, P, &o); 
	for (int i = 0; i < r; i++) for (i64 k = F.U->p[i] + 1; k < F.U->p[i + 1]; k++) { int q = F.qinv[F.U->j[k]]; CHECK(q < 0 || q > i, "trial %d: row %d uses the pivot of row %d", t, i, q); }
	free(P); spasm_csr_free(A); spasm_csr_free(F.U); free(F.qinv); }
	return 0; }
''', env="OMP_NUM_THREADS=32 OMP_WAIT_POLICY=passive")
if only("scc_one_edge"):
    mk("scc_one_edge","C22",[(S+"io.c","					while(scc_bot_edge <= i) {","					if (scc_bot_edge <= i) {")],
     "a picture smaller than the matrix, with several strong components inside one line of pixels", "the colours of the blocks drift away from the decomposition",
     H+'''
int main(void) { i64 p = 65537; int n = 400; struct spasm_triplet *T = spasm_triplet_alloc(n, n, 1, -1, false);
	for (int i = 0; i < n; i++) { spasm_add_entry(T, i, i, 1); if (i > 0) spasm_add_entry(T, i - 1, i, 1); }
	struct spasm_csr *A = spasm_compress(T); struct spasm_dm *D = spasm_dulmage_mendelsohn(A); int *qi = spasm_pinv(D->q, n); struct spasm_csr *B = spasm_permute(A, D->p, qi, 0); (void) p;
	FILE *f = tmpfile(); int x = 10; spasm_save_pnm(B, f, x, x, 3, D); rewind(f); char h[3]; int a, b, c, px[100]; if (fscanf(f, "%2s %d %d %d", h, &a, &b, &c) != 4) return 3;
	CHECK(a == x && b == x, "size"); for (int k = 0; k < 100; k++) { int r, g, l; if (fscanf(f, "%d %d %d", &r, &g, &l) != 3) return 3; px[k] = r << 16 | g << 8 | l; }
	/* below the diagonal blocks: white or black (no component is larger than a pixel) */
	for (int i = 0; i < x; i++) for (int j = 0; j < i; j++) CHECK(px[i * x + j] == 0xFFFFFF || px[i * x + j] == 0, "pixel %d %d is %06x", i, j, px[i * x + j]);
	/* right of the diagonal: the background of the square part */
	for (int i = 0; i < x; i++) for (int j = i + 2; j < x; j++) CHECK(px[i * x + j] == 0xFFCC00 || px[i * x + j] == 0, "pixel %d %d is %06x", i, j, px[i * x + j]);
	return 0; }
''')
TOOL='''#!/bin/bash
# cwd: the repository, built. Exit 0 iff the property holds on this demonstration.
d=$(mktemp -d) || exit 3
trap 'cd /; rm -rf "$d"' EXIT
T=$PWD/_build/tools
[ -x "$T/%s" ] || exit 3
cd "$d"
%s
'''
if only("stack_mark_k"):
    mk("stack_mark_k","C21",[("tools/stack.c","		p[Ai[k]] = 1;\n		q[Aj[k]] = 1;","		p[Ai[k]] = k;     /* remember an entry of this row / column */\n		q[Aj[k]] = k;")],
     "the first entry of the file is alone on its row (or on its column)", "the row (column) of the first entry is not counted: two rows of the result are merged, dimensions are wrong", sh=TOOL%("stack",'''
printf '3 3 M\\n2 1 5\\n3 1 1\\n3 3 7\\n0 0 0\\n' > a
timeout 60 "$T/stack" < a > b 2>/dev/null || exit 1
printf '2 2 M\\n1 1 5\\n2 1 1\\n2 2 7\\n0 0 0\\n' > c
cmp -s b c || { echo "wrong result"; cat b; exit 1; }
exit 0'''))
if only("marker_loose"):
    mk("marker_loose","C17",[(S+"io.c","		if (i == 0 && j == 0 && x == 0) {","		if (i == 0 && j == 0) {")],
     "an SMS file with a line '0 0 x' (x nonzero) before the end marker: it used to be refused", "the file is truncated silently at that line: the matrix loaded lacks the entries that follow",
     H+'''
#include <unistd.h>
#include <sys/wait.h>
int main(void) { const char *s = "3 3 M\\n1 1 1\\n0 0 7\\n2 2 5\\n3 3 1\\n0 0 0\\n"; pid_t c = fork();
	if (c == 0) { FILE *f = tmpfile(); fputs(s, f); rewind(f); struct spasm_triplet *T = spasm_triplet_load(f, 42013, NULL); _exit(T->nz < 3 ? 77 : 0); }
	int st; waitpid(c, &st, 0); CHECK(!(WIFEXITED(st) && (WEXITSTATUS(st) == 77)), "entries lost without an error"); return 0; }
''')
if only("kernel_scan_short"):
    mk("rref_overflow","C01",[(S+"echelonize.c","	i64 extra_nnz = ((i64) (1 + Sm - rr)) * rr;     /* maximum size increase */","	i64 extra_nnz = ((i64) (Sm - rr)) * rr;     /* maximum size increase */")],
     "the dense finishing method (no L wanted) produces rows without any zero", "U is written beyond its capacity (heap corruption)",
     H+'''
int main(void) { for (int t = 0; t < 30; t++) { i64 p = 65537; int n = 20 + t, m = 60; struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) spasm_add_entry(T, i, j, 1 + rnd() % 65536);
	struct spasm_csr *A = spasm_compress(T); spasm_triplet_free(T); struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.max_round = 0; o.sparsity_threshold = 0;
	struct spasm_lu *F = spasm_echelonize(A, &o); i64 nz = F->U->p[F->U->n]; CHECK(nz <= F->U->nzmax, "U holds %lld entries, room for %lld", (ll) nz, (ll) F->U->nzmax); spasm_csr_free(A); }
	return 0; }
''')
if only("scc_sentinel"):
    mk("scc_sentinel","C14",[(S+"scc.c","						lowlink[k] = n;\n","						lowlink[k] = index;     /* larger than everything seen so far */\n")],
     "a depth-first search started after a component with several nodes was completed reaches a non-root node of that component (an arc between components, in the right order)", "nodes of different components are merged, or components are never closed",
     H+'''
int main(void) { for (int t = 0; t < 5000; t++) { int n = 3 + rnd() % 12; struct spasm_triplet *T = spasm_triplet_alloc(n, n, 1, -1, false); static char R[20][20]; memset(R, 0, sizeof R);
	int e = n + rnd() % n; while (e--) { int i = rnd() % n, j = rnd() % n; R[i][j] = 1; spasm_add_entry(T, i, j, 1); }
	for (int i = 0; i < n; i++) R[i][i] = 1; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R[i][j] |= R[i][k] & R[k][j];
	struct spasm_csr *A = spasm_compress(T); spasm_triplet_free(T); struct spasm_dm *D = spasm_strongly_connected_components(A); int b[20];
	CHECK(D->r[D->nb] == n, "blocks do not cover, trial %d", t);
	for (int k = 0; k < D->nb; k++) for (int i = D->r[k]; i < D->r[k + 1]; i++) b[D->p[i]] = k;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK((b[i] == b[j]) == (R[i][j] && R[j][i]), "nodes %d %d, trial %d", i, j, t); spasm_dm_free(D); spasm_csr_free(A); }
	return 0; }
''')
