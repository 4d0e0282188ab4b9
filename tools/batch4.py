import sys; sys.path.insert(0,'/tmp')
from mkseed import mk
def only(i): return len(sys.argv) < 2 or i in sys.argv[1:]
H='#include "demo_common.h"\n'
S="src/spasm_"
if only("dense_complete_tail"):
    mk("dense_complete_tail","C02",[(S+"echelonize.c","		for (i64 j = 0; j < spasm_min(i + 1, r); j++) {\n			spasm_ZZp Mij","		i64 len = (i < r) ? i + 1 : r - 1;      /* rows below the pivots have no diagonal entry */\n		for (i64 j = 0; j < len; j++) {\n			spasm_ZZp Mij")],
     "a complete factorization (opts.complete) of a rank-deficient matrix finished by the dense LU", "L*U differs from A on rows without pivot: their last coefficient in L is lost",
     H+'''
int main(void) { i64 p = 42013; int bad = 0;
	for (int t = 0; t < 20; t++) { int n = 14, m = 12, r = 5; ll L[14][5], R[5][12];
	for (int i = 0; i < n; i++) for (int k = 0; k < r; k++) L[i][k] = rnd() % p; for (int k = 0; k < r; k++) for (int j = 0; j < m; j++) R[k][j] = rnd() % p;
	struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { ll s = 0; for (int k = 0; k < r; k++) s = md(s + mulm(L[i][k], R[k][j], p), p); if (s) spasm_add_entry(T, i, j, s); }
	struct spasm_csr *A = spasm_compress(T); ll *D = densify(A); struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.L = 1; o.complete = 1; o.enable_tall_and_skinny = 0; o.enable_GPLU = 0; o.sparsity_threshold = 0.01; o.min_pivot_proportion = 0.9;
	struct spasm_lu *f = spasm_echelonize(A, &o); CHECK(f->U->n == r, "rank %d", f->U->n); ll *l = densify(f->L), *u = densify(f->U);
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { ll s = 0; for (int k = 0; k < r; k++) s = md(s + mulm(l[i * r + k], u[k * m + j], p), p); if (s != D[i * m + j]) bad++; } }
	CHECK(!bad, "%d entries of L*U differ from A", bad); return 0; }
''')
if only("gesv_skip_clear"):
    mk("gesv_skip_clear","C05",[(S+"solve.c","""		spasm_ZZp *x = spasm_malloc(Xm * sizeof(*x));
		#pragma omp for schedule(dynamic)
		for (int i = 0; i < n; i++) {
			for (int j = 0; j < m; j++) 
				b[j] = 0;
			spasm_scatter(B, i, 1, b);
			bool res = spasm_solve(fact, b, x);
			if (ok)
				ok[i] = res;
""","""		spasm_ZZp *x = spasm_malloc(Xm * sizeof(*x));
		for (int j = 0; j < m; j++) 
			b[j] = 0;
		#pragma omp for schedule(dynamic)
		for (int i = 0; i < n; i++) {
			spasm_scatter(B, i, 1, b);
			bool res = spasm_solve(fact, b, x);
			if (ok) {
				ok[i] = res;
				if (!res)
					continue;      /* no solution: nothing to store */
			}
			for (i64 px = B->p[i]; px < B->p[i + 1]; px++)
				b[B->j[px]] = 0;
""")],
     "spasm_gesv with a non-NULL ok and several right-hand sides, a solvable one coming (on the same thread) after an unsolvable one", "the later systems are solved for a polluted right-hand side: solvable systems are declared unsolvable, or wrong solutions returned",
     H+'''
int main(void) { i64 p = 42013; int n = 6, m = 10, k = 12; struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (rnd() % 2 || i == j) spasm_add_entry(T, i, j, 1 + rnd() % 1000);
	struct spasm_csr *A = spasm_compress(T); ll *D = densify(A); struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.L = 1; struct spasm_lu *f = spasm_echelonize(A, &o);
	T = spasm_triplet_alloc(k, m, 1, p, true);
	for (int i = 0; i < k; i++) { if (i % 3 == 0) { spasm_add_entry(T, i, m - 1, 1); spasm_add_entry(T, i, m - 3, 7); } else { ll c[6]; for (int a = 0; a < n; a++) c[a] = rnd() % p; for (int j = 0; j < m; j++) { ll s = 0; for (int a = 0; a < n; a++) s = md(s + mulm(c[a], D[a * m + j], p), p); if (s) spasm_add_entry(T, i, j, s); } } }
	struct spasm_csr *B = spasm_compress(T); ll *b = densify(B); bool ok[12]; struct spasm_csr *X = spasm_gesv(f, B, ok); ll *x = densify(X);
	for (int i = 0; i < k; i++) { if (i % 3) CHECK(ok[i], "system %d is solvable", i); if (!ok[i]) continue; for (int j = 0; j < m; j++) { ll s = 0; for (int a = 0; a < n; a++) s = md(s + mulm(x[i * n + a], D[a * m + j], p), p); CHECK(s == b[i * m + j], "system %d column %d", i, j); } }
	return 0; }
''')
if only("scc_inplace_reverse"):
    mk("scc_inplace_reverse","C14",[(S+"scc.c","""	for (int i = 0; i <= n_scc; i++)
		cc[i] = n - rr[n_scc - i];
	for (int i = 0; i <= n_scc; i++)
		rr[i] = cc[i];
""","""	for (int lo = 0, hi = n_scc; lo < hi; lo++, hi--) {    /* reverse in place */
		int t = n - rr[lo];
		rr[lo] = n - rr[hi];
		rr[hi] = t;
	}
	for (int i = 0; i <= n_scc; i++)
		cc[i] = rr[i];
""")],
     "a graph with an even number of strongly connected components (at least two) whose two halves do not have the same number of vertices", "the boundary in the middle of the block structure is wrong: components are mixed or split",
     H+'''
int main(void) { for (int t = 0; t < 300; t++) { int n = 3 + rnd() % 12; struct spasm_triplet *T = spasm_triplet_alloc(n, n, 1, 42013, false); char r[16][16] = {{0}};
	for (int i = 0; i < n; i++) { r[i][i] = 1; for (int j = 0; j < n; j++) if (rnd() % (n + 1) < 2) { spasm_add_entry(T, i, j, 1); r[i][j] = 1; } }
	struct spasm_csr *A = spasm_compress(T); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] |= r[i][k] & r[k][j];
	struct spasm_dm *P = spasm_strongly_connected_components(A); CHECK(P->r[0] == 0 && P->r[P->nb] == n, "bounds"); int blk[16];
	for (int b = 0; b < P->nb; b++) { CHECK(P->r[b] < P->r[b + 1], "empty block"); for (int k = P->r[b]; k < P->r[b + 1]; k++) blk[P->p[k]] = b; }
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { CHECK((blk[i] == blk[j]) == (r[i][j] && r[j][i]), "n=%d: %d and %d", n, i, j); if (r[i][j]) CHECK(blk[i] <= blk[j], "order"); } }
	return 0; }
''')
if only("ffpack_zero_early"):
    mk("ffpack_zero_early","C20",[(S+"ffpack.cpp","""	// FFPACK::getReducedEchelonForm(GFp, FFLAS::FflasUpper,  n, m, rank, Qt, A, ldA, FFPACK::FfpackTileRecursive);
	/* Qt is in LAPACK representation; convert */
	FFPACK::LAPACKPerm2MathPerm (qinv, Qt, m);
""","""	// FFPACK::getReducedEchelonForm(GFp, FFLAS::FflasUpper,  n, m, rank, Qt, A, ldA, FFPACK::FfpackTileRecursive);
	/* Qt is in LAPACK representation; convert */
	if (rank > 0)           /* otherwise, there are no pivots to locate */
		FFPACK::LAPACKPerm2MathPerm (qinv, Qt, m);
""")],
     "spasm_ffpack_rref on a zero block, whose column permutation is then used", "the column permutation is not written when the rank is zero",
     H+'''
int main(void) { i64 ps[] = {257, 42013, 4294967291LL}; for (int k = 0; k < 3; k++) { i64 p = ps[k]; spasm_datatype d = spasm_datatype_choose(p); int n = 4, m = 7; void *M = calloc(n * m, 8); size_t q[7]; memset(q, 0x5a, sizeof q);
	int r = spasm_ffpack_rref(p, n, m, M, m, d, q); CHECK(r == 0, "rank %d", r); int seen[7] = {0}; for (int j = 0; j < m; j++) { CHECK(q[j] < 7 && !seen[q[j]], "column permutation, p=%lld", (ll) p); seen[q[j]] = 1; } free(M); }
	return 0; }
''')
if only("double_limit"):
    mk("double_limit","C20",[(S+"ffpack.cpp","	else if (prime <= 189812531)\n","	else if (prime < (1 << 28))      /* products of two residues of 27 bits have less than 54 bits */\n")],
     "a prime between 189812531 and 2^28: residues of the dense blocks are stored as doubles although sums of products may exceed 2^53", "FFPACK computes with inexact products: wrong rank/echelon form",
     H+'''
int main(void) { i64 p = 268435399; spasm_datatype d = spasm_datatype_choose(p);
	for (int t = 0; t < 8; t++) { int n = 60, m = 70, r = 30; ll *D = calloc(n * m, sizeof(ll)); void *M = calloc(n * m, 8); ll *L = malloc(sizeof(ll) * n * r), *R = malloc(sizeof(ll) * r * m); for (int i = 0; i < n * r; i++) L[i] = rnd() % p; for (int i = 0; i < r * m; i++) R[i] = rnd() % p;
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { ll s = 0; for (int k = 0; k < r; k++) s = md(s + mulm(L[i * r + k], R[k * m + j], p), p); D[i * m + j] = s; spasm_datatype_write(M, i * m + j, d, s > p / 2 ? s - p : s); }
	size_t q[70]; int rr = spasm_ffpack_rref(p, n, m, M, m, d, q); CHECK(rr == r, "rank %d instead of %d", rr, r); }
	return 0; }
''')
if only("cert_challenge_skip"):
    mk("cert_challenge_skip","C07",[(S+"certificate.c","""		int j = proof->j[k];
		if (y[j] != spasm_prng_ZZp(&ctx))
			correct = 0;
""","""		int j = proof->j[k];
		if (y[j] == 0)
			continue;              /* structurally absent */
		if (y[j] != spasm_prng_ZZp(&ctx))
			correct = 0;
""")],
     "a forged certificate whose announced pivots include columns on which the combination x*A vanishes", "the verifier accepts certificates for a rank larger than the true one, or with challenges that are not met (and refuses some honest ones, when a challenge is zero)",
     H+'''
int main(void) { i64 p = 42013; /* zero matrix: any rank can be claimed */
	struct spasm_triplet *T = spasm_triplet_alloc(3, 3, 1, p, true); struct spasm_csr *A = spasm_compress(T); struct spasm_rank_certificate c; memset(&c, 0, sizeof c); u8 hash[32]; for (int i = 0; i < 32; i++) c.hash[i] = hash[i] = i;
	c.r = 2; c.prime = p; int ii[] = {0, 1}, jj[] = {1, 2}; spasm_ZZp x[] = {3, 4}, y[] = {5, 6}; c.i = ii; c.j = jj; c.x = x; c.y = y; CHECK(!spasm_certificate_rank_verify(A, hash, &c), "a zero matrix has not rank 2"); return 0; }
''')
if only("rref_nowait"):
    mk("rref_nowait","C04",[(S+"rref.c","		#pragma omp for\n		for (int j = 0; j < m; j++)\n			Rqinv[j] = -1;\n","		#pragma omp for nowait\n		for (int j = 0; j < m; j++)\n			Rqinv[j] = -1;\n")],
     "at least two threads, one of which registers a pivot before another one has initialized the corresponding entries", "pivots of R are forgotten: Rqinv[j] == -1 on a column which has a pivot",
     H+'''
#include <omp.h>
int main(void) { i64 p = 42013; int n = 4, m = 3000000; struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < n; i++) { spasm_add_entry(T, i, m / 2 - 1 - i * (m / 8), 1); spasm_add_entry(T, i, m - 1 - i, 2); }
	struct spasm_csr *A = spasm_compress(T); struct spasm_lu *f = spasm_echelonize(A, NULL); int *q = malloc(m * sizeof(int));
	for (int t = 0; t < 60; t++) { struct spasm_csr *R = spasm_rref(f, q); for (int i = 0; i < R->n; i++) CHECK(q[R->j[R->p[i]]] == i, "run %d: pivot of row %d", t, i); spasm_csr_free(R); }
	return 0; }
''', env="OMP_NUM_THREADS=4")
if only("gesv_nonatomic"):
    mk("gesv_nonatomic","C09",[(S+"solve.c","""					#pragma omp atomic capture
					{ xnz = X->nz; X->nz += 1; }
""","""					#pragma omp atomic read
					xnz = X->nz;
					#pragma omp atomic update
					X->nz += 1;
""")],
     "two threads appending coefficients of solutions at the same time in spasm_gesv", "an entry of the solution is overwritten by an entry of another row, and garbage appears",
     H+'''
int main(void) { i64 p = 42013; int n = 40, k = 600; struct spasm_triplet *T = spasm_triplet_alloc(n, n, 1, p, true);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (rnd() % 4 == 0 || i == j) spasm_add_entry(T, i, j, 1 + rnd() % 1000);
	struct spasm_csr *A = spasm_compress(T); ll *D = densify(A); struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.L = 1; struct spasm_lu *f = spasm_echelonize(A, &o); CHECK(f->U->n == n, "unlucky");
	T = spasm_triplet_alloc(k, n, 1, p, true); for (int i = 0; i < k; i++) for (int j = 0; j < n; j++) spasm_add_entry(T, i, j, 1 + rnd() % 1000);
	struct spasm_csr *B = spasm_compress(T); ll *b = densify(B);
	for (int t = 0; t < 20; t++) { struct spasm_csr *X = spasm_gesv(f, B, NULL); for (int i = 0; i < k; i++) { ll x[40] = {0}; for (i64 q = X->p[i]; q < X->p[i + 1]; q++) { CHECK(X->j[q] >= 0 && X->j[q] < n, "garbage"); x[X->j[q]] = md(X->x[q], p); } for (int j = 0; j < n; j++) { ll s = 0; for (int a = 0; a < n; a++) s = md(s + mulm(x[a], D[a * n + j], p), p); CHECK(s == b[i * n + j], "system %d", i); } } spasm_csr_free(X); }
	return 0; }
''', env="OMP_NUM_THREADS=8")
if only("inverse_int"):
    mk("inverse_int","C18",[(S+"ZZp.c","		i64 q = r / s;\n		i64 foo = u;","		int q = r / s;\n		i64 foo = u;")],
     "the inverse of 1 modulo a prime larger than 2^31 (the only case where a quotient does not fit on 31 bits)", "spasm_ZZp_inverse does not terminate or returns something which is not the inverse",
     H+'''
#include <unistd.h>
int main(void) { alarm(20); i64 ps[] = {3, 257, 42013, 189812533, 2147483647, 2147483659LL, 3221225473LL, 4294967291LL}; for (int k = 0; k < 8; k++) { spasm_field F; spasm_field_init(ps[k], F); i64 p = ps[k];
	for (int t = 0; t < 2000; t++) { i64 a = t < 100 ? 1 + t : 1 + rnd() % (p - 1); if (a % p == 0) continue; spasm_ZZp x = spasm_ZZp_init(F, a), r = spasm_ZZp_inverse(F, x); CHECK(mulm(md(r, p), md(x, p), p) == 1 && r <= p / 2 && r >= p / 2 - p + 1, "p=%lld a=%lld r=%d", (ll) p, (ll) a, r); } }
	return 0; }
''')
if only("prng_counter_byte"):
    mk("prng_counter_byte","C19",[(S+"prng.c","        ctx->block[9] = htonl(ctx->counter);","        ((u8 *) ctx->block)[39] = ctx->counter;        /* least significant byte, big-endian */")],
     "more than 2048 words drawn from the same generator", "the sequence becomes periodic with period 2048: the stream is not SHA256 in counter mode",
     H+'''
int main(void) { spasm_prng_ctx c; spasm_prng_seed_simple(4294967291LL, 1, 0, &c); static u32 w[8192]; for (int i = 0; i < 8192; i++) w[i] = spasm_prng_u32(&c);
	for (int k = 1; k < 4; k++) { int same = 0; for (int i = 0; i < 2048; i++) same += w[i] == w[i + 2048 * k]; CHECK(same < 10, "%d coincidences", same); } return 0; }
''')
if only("dm_single_block"):
    mk("dm_single_block","C13",[(S+"dm.c","	if (rr[2] - rr[1] == 0)\n		return DM;  /* S is empty: no need to find its SCC */","	if (rr[2] - rr[1] <= 1)\n		return DM;  /* S is empty or has a single entry: no need to find its SCC */")],
     "a matrix whose well-determined part is of size exactly one", "the fine decomposition (r, c, nb) is never computed: the arrays still contain the workspace of the search",
     H+'''
int main(void) { /* R1 x (C0 u C1) : row 0 on columns 0, 1; S: row 1 on column 2; R3 u R0 : rows 2, 3 on column 3 */
	struct spasm_triplet *T = spasm_triplet_alloc(4, 4, 1, 42013, true); spasm_add_entry(T, 0, 0, 1); spasm_add_entry(T, 0, 1, 1); spasm_add_entry(T, 1, 2, 1); spasm_add_entry(T, 0, 2, 1); spasm_add_entry(T, 2, 3, 1); spasm_add_entry(T, 3, 3, 1); spasm_add_entry(T, 1, 3, 1);
	struct spasm_csr *A = spasm_compress(T); struct spasm_dm *D = spasm_dulmage_mendelsohn(A);
	CHECK(D->nb == 3, "%d blocks", D->nb); int r[] = {0, 1, 2, 4}, c[] = {0, 2, 3, 4}; for (int i = 0; i < 4; i++) CHECK(D->r[i] == r[i] && D->c[i] == c[i], "block %d", i); return 0; }
''')
if only("scc_root_open"):
    mk("scc_root_open","C14",[(S+"scc.c","""					p[p_top++] = j;
					lowlink[j] = n;
					top--;""","""					p[p_top++] = j;
					if (prev[j] >= 0)       /* otherwise the search from i is over */
						lowlink[j] = n;
					top--;""")],
     "a vertex from which a first search was started (the root of its tree), and an edge leading to it from a tree explored later", "two distinct components are merged",
     H+'''
int main(void) { for (int t = 0; t < 300; t++) { int n = 3 + rnd() % 12; struct spasm_triplet *T = spasm_triplet_alloc(n, n, 1, 42013, false); char r[16][16] = {{0}};
	for (int i = 0; i < n; i++) { r[i][i] = 1; for (int j = 0; j < n; j++) if (rnd() % (n + 1) < 2) { spasm_add_entry(T, i, j, 1); r[i][j] = 1; } }
	T->n = T->m = n; struct spasm_csr *A = spasm_compress(T); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] |= r[i][k] & r[k][j];
	struct spasm_dm *P = spasm_strongly_connected_components(A); CHECK(P->r[0] == 0 && P->r[P->nb] == n, "bounds"); int blk[16];
	for (int b = 0; b < P->nb; b++) { CHECK(P->r[b] < P->r[b + 1], "empty block"); for (int k = P->r[b]; k < P->r[b + 1]; k++) blk[P->p[k]] = b; }
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { CHECK((blk[i] == blk[j]) == (r[i][j] && r[j][i]), "n=%d: %d and %d", n, i, j); if (r[i][j]) CHECK(blk[i] <= blk[j], "order"); } }
	return 0; }
''')
if only("kernel_grow_zero"):
    mk("kernel_grow_zero","C03",[(S+"kernel.c","spasm_csr_realloc(K, 2 * K->nzmax + row_nz);","spasm_csr_realloc(K, 2 * K->nzmax);"),(S+"kernel.c","K->nzmax, 2 * K->nzmax + row_nz);\n","K->nzmax, 2 * K->nzmax);\n")],
     "the kernel of a matrix of rank zero (the initial capacity, the number of entries of U, is zero)", "the rows of the kernel are written outside of the arrays",
     H+'''
int main(void) { int m = 20000; struct spasm_triplet *T = spasm_triplet_alloc(3, m, 1, 42013, true); struct spasm_csr *A = spasm_compress(T); struct spasm_lu *f = spasm_echelonize(A, NULL); CHECK(f->U->n == 0, "rank");
	struct spasm_csr *K = spasm_kernel(f); CHECK(K->n == m && K->nzmax >= m, "capacity %lld", (ll) K->nzmax); static char s[20000]; for (int i = 0; i < m; i++) { CHECK(K->p[i + 1] == i + 1 && K->x[i] != 0 && K->j[i] >= 0 && K->j[i] < m && !s[K->j[i]], "row %d", i); s[K->j[i]] = 1; } return 0; }
''')
if only("triplet_grow_zero"):
    mk("triplet_grow_zero","C15",[(S+"triplet.c","spasm_triplet_realloc(T, 1 + 2 * T->nzmax);","spasm_triplet_realloc(T, 2 * T->nzmax);")],
     "a triplet matrix created with room for zero entries, to which entries are added", "entries are written outside of the arrays; the capacity stays zero",
     H+'''
int main(void) { int n = 30000; struct spasm_triplet *T = spasm_triplet_alloc(n, n, 0, 42013, true); for (int i = 0; i < n; i++) { spasm_add_entry(T, i, n - 1 - i, i + 1); CHECK(T->nz <= T->nzmax, "nz %lld > nzmax %lld", (ll) T->nz, (ll) T->nzmax); }
	struct spasm_csr *A = spasm_compress(T); for (int i = 0; i < n; i++) CHECK(A->p[i + 1] == i + 1 && A->j[i] == n - 1 - i, "row %d", i); return 0; }
''')
if only("lowrank_giveup"):
    mk("lowrank_giveup","C01",[(S+"echelonize.c","			if (spasm_echelonize_test_completion(A, p, n, U, Uqinv))\n				break;\n			fprintf(stderr, \"[echelonize/dense/low-rank] Failed","			if (w == 0 || spasm_echelonize_test_completion(A, p, n, U, Uqinv))\n				break;           /* w == 0: combinations of all the rows are zero */\n			fprintf(stderr, \"[echelonize/dense/low-rank] Failed")],
     "low-rank mode, a small modulus, a small block and full linear combinations that happen to be zero although rows remain", "the rank returned is too small",
     H+'''
int main(void) { int bad = 0; for (int t = 0; t < 400; t++) { int n = 12, m = 30; struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, 3, true); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) spasm_add_entry(T, i, j, (rnd() >> 20) % 3);
	struct spasm_csr *A = spasm_compress(T); struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.max_round = 0; o.dense_block_size = 1; o.low_rank_start_weight = 0; o.tall_and_skinny_ratio = 0; int r = csr_rank(A); struct spasm_lu *f = spasm_echelonize(A, &o); if (f->U->n != r) bad++; }
	CHECK(!bad, "%d wrong ranks", bad); return 0; }
''')
if only("gplu_abort_stale"):
    mk("gplu_abort_stale","C01",[(S+"echelonize.c","			if (spasm_echelonize_test_completion(A, p, n, U, Uqinv))\n				break;\n			early_abort_done = 1;","			if (spasm_echelonize_test_completion(A, p + i, n - i, U, Uqinv) || spasm_nnz(U) == 0)\n				break;           /* rows before i are done */\n			early_abort_done = 1;")],
     "GPLU without L on a matrix starting with more than ten zero rows, when U is still empty", "elimination stops although rows remain: rank 0",
     H+'''
int main(void) { int n = 40, m = 30; struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, 42013, true); for (int i = 20; i < n; i++) for (int j = 0; j < m; j++) if (rnd() % 3 == 0) spasm_add_entry(T, i, j, 1 + rnd() % 1000);
	struct spasm_csr *A = spasm_compress(T); struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.max_round = 0; o.enable_tall_and_skinny = 0; o.enable_dense = 0; int r = csr_rank(A); struct spasm_lu *f = spasm_echelonize(A, &o); CHECK(f->U->n == r, "%d instead of %d", f->U->n, r); return 0; }
''')
