import sys; sys.path.insert(0,'/tmp')
from mkseed import mk
H='#include "demo_common.h"\n'
mk("gplu_abort_prefix","C01",[("src/spasm_echelonize.c","if (spasm_echelonize_test_completion(A, p, n, U, Uqinv))\n				break;\n			early_abort_done","if (spasm_echelonize_test_completion(A, p, i, U, Uqinv))\n				break;\n			early_abort_done")],
 "GPLU (no L) meeting more than 10 consecutive dependent rows before further independent rows",
 "the early-abort test only looks at the rows processed so far, so the remaining rows are dropped and the rank is too small",
 H+'''
int main(void) {
	int n = 40, m = 12; ll p = 65537;
	struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < 30; i++) { spasm_add_entry(T, i, 0, i + 1); spasm_add_entry(T, i, 1, 2 * (i + 1)); spasm_add_entry(T, i, 2, i + 1); }
	for (int i = 30; i < n; i++) for (int j = 0; j < m; j++) spasm_add_entry(T, i, j, 1 + rnd() % 1000);
	struct spasm_csr *A = spasm_compress(T);
	struct echelonize_opts o; spasm_echelonize_init_opts(&o);
	o.max_round = 0; o.enable_dense = 0; o.enable_tall_and_skinny = 0;
	struct spasm_lu *f = spasm_echelonize(A, &o);
	CHECK(f->r == csr_rank(A), "rank %d instead of %d", f->r, csr_rank(A));
	return 0;
}
''')
INTER='''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
#include <unistd.h>
#include <omp.h>
#include "demo_common.h"
static unsigned cnt;
static void nap(void) { unsigned c = __atomic_add_fetch(&cnt, 2654435761u, 5); struct timespec t = {0, (c >> 16) % 60000}; if ((c >> 8) % 4 == 0) nanosleep(&t, 0); }
void GOMP_critical_start(void) { static void (*f)(void); if (!f) f = dlsym(RTLD_NEXT, "GOMP_critical_start"); nap(); f(); }
'''
PIV=INTER+'''
/* every U must be acyclic: repeatedly peel rows whose pivot column meets no other remaining row */
static int acyclic(const struct spasm_csr *U) {
	int r = U->n; int *row = malloc(U->m * sizeof(int)), *deg = calloc(r + 1, sizeof(int)), *st = malloc((r + 1) * sizeof(int)), top = 0, done = 0;
	for (int j = 0; j < U->m; j++) row[j] = -1;
	for (int i = 0; i < r; i++) { if (row[U->j[U->p[i]]] != -1) return 0; row[U->j[U->p[i]]] = i; }
	for (int i = 0; i < r; i++) for (i64 k = U->p[i] + 1; k < U->p[i + 1]; k++) if (row[U->j[k]] >= 0) deg[row[U->j[k]]]++;
	for (int i = 0; i < r; i++) if (!deg[i]) st[top++] = i;
	while (top) { int i = st[--top]; done++; for (i64 k = U->p[i] + 1; k < U->p[i + 1]; k++) { int t = row[U->j[k]]; if (t >= 0 && --deg[t] == 0) st[top++] = t; } }
	free(row); free(deg); free(st); return done == r;
}
int main(void) {
	omp_set_num_threads(8);
	double t0 = spasm_wtime();
	for (int trial = 0; spasm_wtime() - t0 < 40; trial++) {
		int n = 9000, m = 9000; ll p = 65537;
		struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
		for (int i = 0; i < n; i++) { spasm_add_entry(T, i, rnd() % 40, 1 + rnd() % 1000); for (int k = 0; k < 3; k++) spasm_add_entry(T, i, 40 + rnd() % (m - 40), 1 + rnd() % 1000); }
		struct spasm_csr *A = spasm_compress(T); spasm_triplet_free(T);
		struct echelonize_opts o; spasm_echelonize_init_opts(&o);
		struct spasm_lu F; memset(&F, 0, sizeof F); F.U = spasm_csr_alloc(n, m, 1, p, true); F.U->n = 0; F.qinv = malloc(m * sizeof(int)); for (int j = 0; j < m; j++) F.qinv[j] = -1;
		int *P = malloc(n * sizeof(int));
		spasm_pivots_extract_structural(A, NULL, &F, P, &o);
		CHECK(acyclic(F.U), "the selected pivots have a cycle (trial %d)", trial);
		spasm_csr_free(A); spasm_csr_free(F.U); free(F.qinv); free(P);
	}
	return 0;
}
'''
mk("journal_hit_ignored","C08",[("src/spasm_pivots.c","				if (w[j] == 0)	/* the new pivot plays no role here */\n","				if (w[j] <= 0)	/* the new pivot plays no role here */\n")],
 "two threads: a pivot committed by another thread on a column that this thread's search has already passed",
 "after a failed commit, newly pivotal columns already reached by the search are not explored, so an alternating cycle can be selected",PIV)
mk("journal_late_begin","C08",[("src/spasm_pivots.c","""			int npiv_local;
			#pragma omp atomic read
			npiv_local = npiv;

			/* scatters""","""			int npiv_local;

			/* scatters"""),("src/spasm_pivots.c","""			/* BFS. This is where most of the time is spent */
	BFS:""","""			#pragma omp atomic read
			npiv_local = npiv;

			/* BFS. This is where most of the time is spent */
	BFS:""")],
 "two threads: a pivot committed by another thread while this thread scatters its row",
 "the transaction begins after the row was read, so a pivot found in between goes unnoticed and the selected pivots can contain a cycle",PIV.replace("k < 3; k++) spasm_add_entry(T, i, 40 + rnd() % (m - 40)", "k < 60; k++) spasm_add_entry(T, i, 40 + rnd() % 300").replace("m = 9000","m = 340"))
0 and mk("scc_member_lowlink","C14",[("src/spasm_scc.c","						p[p_top++] = k;\n						lowlink[k] = n;","						p[p_top++] = k;")],
 "an edge from a later vertex into a non-root member of an already completed component with at least two vertices",
 "the low link of the members of a finished component is kept, so the later vertex never becomes the root of its own component",
 H+'''
int main(void) {
	/* 0 <-> 1, then 2 -> 1 */
	struct spasm_triplet *T = spasm_triplet_alloc(3, 3, 1, 3, true);
	spasm_add_entry(T, 0, 1, 1); spasm_add_entry(T, 1, 0, 1); spasm_add_entry(T, 2, 1, 1);
	for (int i = 0; i < 3; i++) spasm_add_entry(T, i, i, 1);
	struct spasm_dm *D = spasm_strongly_connected_components(spasm_compress(T));
	CHECK(D->nb == 2, "%d components", D->nb);
	return 0;
}
''')
mk("sha_pad_55","C19",[("src/sha256.c","if (n > (HASH_CBLOCK - 8)) {","if (n >= (HASH_CBLOCK - 8)) {")],
 "a message of length 55 modulo 64","one padding block too many: the digest is not SHA-256",
 H+'''
int main(void) {
	static const u8 want[4] = {0x9f, 0x4d, 0x4e, 0x0a}; (void) want;
	u8 msg[55], a[32], b[32]; for (int i = 0; i < 55; i++) msg[i] = i;
	spasm_sha256_ctx c; spasm_SHA256_init(&c); spasm_SHA256_update(&c, msg, 55); spasm_SHA256_final(a, &c);
	/* independent: sha256sum */
	FILE *f = fopen("msg", "w"); fwrite(msg, 1, 55, f); fclose(f);
	f = popen("sha256sum msg", "r"); for (int i = 0; i < 32; i++) { unsigned v; if (fscanf(f, "%2x", &v) != 1) return 3; b[i] = v; } pclose(f);
	CHECK(memcmp(a, b, 32) == 0, "wrong digest");
	return 0;
}
''')
mk("prng_seq16","C19",[("src/spasm_prng.c","ctx->block[10] = htonl(seq);","ctx->block[10] = htonl(seq & 0xffff);")],
 "two sequence numbers that agree modulo 65536","the upper half of the sequence number is ignored: distinct sequences are identical",
 H+'''
int main(void) {
	spasm_prng_ctx a, b; int same = 1;
	spasm_prng_seed_simple(4294967291, 1, 7, &a); spasm_prng_seed_simple(4294967291, 1, 65543, &b);
	for (int i = 0; i < 20; i++) same &= spasm_prng_u32(&a) == spasm_prng_u32(&b);
	CHECK(!same, "sequences 7 and 65543 are identical");
	return 0;
}
''')
mk("schur_l_row_label","C10",[("src/spasm_schur.c","					Li[local_lnz] = i_orig;\n","					Li[local_lnz] = inew;\n")],
 "L requested and a Schur complement of a Schur complement (second round)","coefficients of L are filed under the row of the current Schur complement instead of the row of A",
 H+'''
int main(void) {
	srand(1);
	for (int t = 0; t < 200; t++) {
	int n = 30, m = 25; ll p = 65537;
	struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) spasm_add_entry(T, i, rnd() % m, 1 + rnd() % 1000);
	struct spasm_csr *A = spasm_compress(T);
	struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.L = 1; o.complete = 1; o.max_round = 10; o.min_pivot_proportion = 0; o.sparsity_threshold = 2; 
	struct spasm_lu *f = spasm_echelonize(A, &o);
	ll *L = densify(f->L), *U = densify(f->U), *D = densify(A);
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { ll s = 0; for (int k = 0; k < f->r; k++) s = md(s + mulm(L[i * f->L->m + k], U[k * m + j], p), p); CHECK(s == D[i * m + j], "L*U != A at (%d, %d), trial %d", i, j, t); }
	free(L); free(U); free(D);
	}
	return 0;
}
''')
