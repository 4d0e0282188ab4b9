import sys; sys.path.insert(0,'/tmp')
from mkseed import mk
def only(i): return len(sys.argv) < 2 or i in sys.argv[1:]
H='#include "demo_common.h"\n'
S="src/spasm_"
RE='''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <malloc.h>
#include <unistd.h>
#include <omp.h>
#include "demo_common.h"
/* a legal but slow realloc: always moves the block, and takes its time before it releases the old one */
static int armed;
void *realloc(void *p, size_t n) { static void *(*f)(void *, size_t); if (!f) f = dlsym(RTLD_NEXT, "realloc"); if (!armed || !p || n < 256) return f(p, n);
	void *q = malloc(n); size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); usleep(300); memset(p, 0xA5, o); free(p); return q; }
/* a sparse unit upper-triangular U whose reduced form is dense */
static void chain(struct spasm_lu *F, int n, int m, ll p) {
	struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < n; i++) { spasm_add_entry(T, i, i, 1); spasm_add_entry(T, i, i + 1, 1 + rnd() % 1000); spasm_add_entry(T, i, n + rnd() % (m - n), 1 + rnd() % 1000); }
	memset(F, 0, sizeof *F); F->U = spasm_compress(T); spasm_triplet_free(T); F->r = n; F->qinv = malloc(m * sizeof(int));
	for (int j = 0; j < m; j++) F->qinv[j] = j < n ? j : -1;
}
static int wf(const struct spasm_csr *A) { for (int i = 0; i < A->n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) if (A->j[k] < 0 || A->j[k] >= A->m) return 0; return 1; }
'''
KER=RE+'''
int main(void) {
	omp_set_num_threads(8); double t0 = spasm_wtime(); int n = 500, m = 700; ll p = 65537;
	for (int trial = 0; spasm_wtime() - t0 < 40; trial++) {
		struct spasm_lu F; chain(&F, n, m, p);
		armed = 1; struct spasm_csr *K = spasm_kernel(&F); armed = 0;
		CHECK(K->n == m - n && wf(K), "malformed kernel, trial %d", trial);
		ll *U = densify(F.U);
		for (int k = 0; k < K->n; k++) { ll y[500] = {0}; for (i64 q = K->p[k]; q < K->p[k + 1]; q++) for (int i = 0; i < n; i++) if (U[i * m + K->j[q]]) y[i] = md(y[i] + U[i * m + K->j[q]] * K->x[q], p);
			for (int i = 0; i < n; i++) CHECK(y[i] == 0, "row %d of K is not in the kernel, trial %d", k, trial); }
		free(U); free(F.qinv); spasm_csr_free(F.U); spasm_csr_free(K);
	}
	return 0;
}
'''
RREF=RE+'''
int main(void) {
	omp_set_num_threads(8); double t0 = spasm_wtime(); int n = 500, m = 700; ll p = 65537;
	for (int trial = 0; spasm_wtime() - t0 < 40; trial++) {
		struct spasm_lu F; chain(&F, n, m, p); int *Rq = malloc(m * sizeof(int));
		armed = 1; struct spasm_csr *R = spasm_rref(&F, Rq); armed = 0;
		CHECK(R->n == n && wf(R), "malformed rref, trial %d", trial);
		/* each row of R: one pivot column equal to 1; U * x = 0 iff R * x = 0. Check that row(pivot i) + U-combination agree: U_i = sum over pivots of U_i[j] * R_j */
		ll *U = densify(F.U), *D = densify(R);
		for (int j = 0; j < n; j++) CHECK(Rq[j] >= 0 && Rq[j] < n, "column %d lost its pivot, trial %d", j, trial);
		for (int i = 0; i < n; i++) { ll y[700] = {0}; for (int j = 0; j < n; j++) { ll c = U[i * m + j]; if (c) for (int t = 0; t < m; t++) y[t] = md(y[t] + c * D[Rq[j] * m + t], p); }
			for (int t = 0; t < m; t++) CHECK(y[t] == U[i * m + t], "row %d of U is not spanned by R, trial %d", i, trial); }
		free(U); free(D); free(F.qinv); free(Rq); spasm_csr_free(F.U); spasm_csr_free(R);
	}
	return 0;
}
'''
SCH=RE+'''
int main(void) {
	omp_set_num_threads(8); double t0 = spasm_wtime(); int n = 500, m = 700; ll p = 65537;
	for (int trial = 0; spasm_wtime() - t0 < 40; trial++) {
		struct spasm_lu F; chain(&F, n, m, p); int an = 300; int P[300], Q[300];
		struct spasm_triplet *T = spasm_triplet_alloc(an, m, 1, p, true);
		for (int i = 0; i < an; i++) { P[i] = i; for (int k = 0; k < 3; k++) spasm_add_entry(T, i, rnd() % 100, 1 + rnd() % 1000); spasm_add_entry(T, i, m - 1, 1); }
		struct spasm_csr *A = spasm_compress(T); spasm_triplet_free(T);
		struct spasm_triplet *L = spasm_triplet_alloc(an, n, 1, p, true);
		armed = 1; struct spasm_csr *Z = spasm_schur(A, P, an, &F, 0.0001, L, NULL, Q); armed = 0;
		CHECK(Z->n == an && wf(Z), "malformed Schur complement, trial %d", trial);
		ll *U = densify(F.U), *D = densify(Z), *B = densify(A); ll *C = calloc((size_t) an * m, sizeof *C);
		for (int i = 0; i < an; i++) for (int t = 0; t < m; t++) C[Q[i] * m + t] = D[i * m + t];
		for (i64 k = 0; k < L->nz; k++) { CHECK(L->i[k] >= 0 && L->i[k] < an && L->j[k] >= 0 && L->j[k] < n, "bad entry in L, trial %d", trial); for (int t = 0; t < m; t++) if (U[L->j[k] * m + t]) C[L->i[k] * m + t] = md(C[L->i[k] * m + t] + U[L->j[k] * m + t] * L->x[k], p); }
		for (int t = 0; t < an * m; t++) CHECK(C[t] == B[t], "L*U + S != A at row %d, trial %d", t / m, trial);
		free(U); free(D); free(B); free(C); free(F.qinv); spasm_csr_free(F.U); spasm_csr_free(A); spasm_csr_free(Z); spasm_triplet_free(L);
	}
	return 0;
}
'''
WAIT='''					/* wait until other threads stop writing into R */
					#pragma omp flush(writing)
					while (writing > 0) {
						#pragma omp flush(writing)
					}
'''
LU=H+'''
int main(void) {
	for (int t = 0; t < 300; t++) {
	int n = 10 + rnd() % 30, m = 8 + rnd() % 20; ll p = 65537;
	struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < n; i++) for (int k = 0; k < 3; k++) spasm_add_entry(T, i, rnd() % m, 1 + rnd() % 1000);
	T->n = n; T->m = m;
	struct spasm_csr *A = spasm_compress(T);
	struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.L = 1; o.complete = COMPLETE; o.max_round = 1 + t % 4; o.min_pivot_proportion = (t % 3) * 0.3; o.sparsity_threshold = (t % 4) * 0.2; o.dense_block_size = 5;
	struct spasm_lu *f = spasm_echelonize(A, &o);
	ll *L = densify(f->L), *U = densify(f->U), *D = densify(A); char *piv = calloc(n, 1); for (int k = 0; k < f->r; k++) piv[f->p[k]] = 1;
	for (int i = 0; i < n; i++) if (piv[i] || o.complete) for (int j = 0; j < m; j++) { ll s = 0; for (int k = 0; k < f->r; k++) s = md(s + mulm(L[i * f->L->m + k], U[k * m + j], p), p); CHECK(s == D[i * m + j], "L*U != A at (%d, %d), trial %d", i, j, t); }
	free(L); free(U); free(D); free(piv);
	}
	return 0;
}
'''
CERT='''
static struct spasm_csr *mat(int n, int m, ll p, int w) { struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true); for (int i = 0; i < n; i++) for (int k = 0; k < w; k++) spasm_add_entry(T, i, rnd() % m, 1 + rnd() % (p - 1)); struct spasm_csr *A = spasm_compress(T); spasm_triplet_free(T); return A; }
static struct spasm_rank_certificate *cert(const struct spasm_csr *A, const u8 *h) { struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.L = 1; struct spasm_lu *f = spasm_echelonize(A, &o); return spasm_certificate_rank_create(A, h, f); }
'''
if only("kernel_no_wait"): mk("kernel_no_wait","C09",[(S+"kernel.c",WAIT,"")],"a thread enlarges K while another one is writing its row","rows of the kernel written during the reallocation are lost",KER)
if only("kernel_no_wait_c03"): mk("kernel_no_wait_c03","C03",[(S+"kernel.c","while (writing > 0) {","while (writing > 1) {")],"a thread enlarges K while exactly one other thread is writing its row","rows of the kernel written during the reallocation are lost",KER)
REG='''				/* this thread will write into R */
				#pragma omp atomic update
				writing += 1;
			}
'''
if only("rref_late_register"): mk("rref_late_register","C09",[(S+"rref.c",REG,'''			}
			/* this thread will write into R */
			#pragma omp atomic update
			writing += 1;
''')],"a thread enlarges R after another one left the critical section but before it registered as a writer","rows of R written during the reallocation are lost",RREF)
if only("rref_early_unregister"): mk("rref_early_unregister","C04",[(S+"rref.c",'''			Rp[local_i + 1] = local_nnz;
			qinv_local[pivot] = i;

			/* we're done writing */
			#pragma omp atomic update
			writing--;
''','''			Rp[local_i + 1] = local_nnz;
			qinv_local[pivot] = i;
'''),(S+"rref.c","			/* write the new row in R */\n",'''			#pragma omp atomic update
			writing--;

			/* write the new row in R */
''')],"a thread enlarges R while another one is writing its row","the writer unregisters before it writes: rows of R written during a reallocation are lost",RREF)
if only("schur_wait_l_only"): mk("schur_wait_l_only","C10",[(S+"schur.c",'''				if (L != NULL && lnz + row_lnz > L->nzmax) {
					/* wait until other threads stop writing into it */
					#pragma omp flush(writing)
					while (writing > 0) {
						#pragma omp flush(writing)
					}
''','''				if (L != NULL && lnz + row_lnz > L->nzmax) {
''')],"a thread enlarges L (but not S) while another one is writing its row","coefficients of L written during the reallocation are lost",SCH)

if only("dense_switch_rows"): mk("dense_switch_rows","C01",[(S+"echelonize.c","		p += Sn;\n",""),(S+"echelonize.c",'''			lowrank_mode = 1;
			break;
		}
''','''			lowrank_mode = 1;
			break;
		}
		p += Sn;
''')],"dense mode switching to low-rank mode after a block with few pivots, with independent rows in the last block","the low-rank pass looks at the rows already processed again and never at the last ones: the rank is too small",H+'''
int main(void) {
	int n = 40, m = 12; ll p = 65537;
	struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < n; i++) { if (i < 30) for (int j = 0; j < m; j++) spasm_add_entry(T, i, j, (i + 1) * (j + 1)); else for (int j = 0; j < m; j++) spasm_add_entry(T, i, j, 1 + rnd() % 1000); }
	struct spasm_csr *A = spasm_compress(T);
	struct echelonize_opts o; spasm_echelonize_init_opts(&o);
	o.min_pivot_proportion = 2; o.tall_and_skinny_ratio = 100; o.dense_block_size = 10; o.sparsity_threshold = 0; 
	struct spasm_lu *f = spasm_echelonize(A, &o);
	CHECK(f->r == csr_rank(A), "rank %d instead of %d", f->r, csr_rank(A));
	return 0;
}
''')
if only("verify_square_part"): mk("verify_square_part","C02",[(S+"certificate.c",'''	for (int j = 0; j < m; j++)
		if (z[j] != t[j])
			correct = 0;
''','''	for (int j = 0; j < spasm_min(n, m); j++)
		if (z[j] != t[j])
			correct = 0;
''')],"a wide matrix and a factorization that is wrong only beyond the leading square part","spasm_factorization_verify accepts a wrong factorization",H+'''
int main(void) {
	int n = 6, m = 20; ll p = 65537;
	struct spasm_triplet *T = spasm_triplet_alloc(n, m, 1, p, true);
	for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) spasm_add_entry(T, i, k, 1 + rnd() % 1000);
	struct spasm_csr *A = spasm_compress(T);
	struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.L = 1;
	struct spasm_lu *f = spasm_echelonize(A, &o);
	CHECK(spasm_factorization_verify(A, f, 1), "a correct factorization is refused");
	for (int k = 0; k < f->U->p[1]; k++) if (f->U->j[k] == m - 1) f->U->x[k] += 1;
	CHECK(!spasm_factorization_verify(A, f, 1), "a wrong factorization is accepted");
	return 0;
}
''')
if only("solve_residual_tail"): mk("solve_residual_tail","C05",[(S+"triangular.c",'''	for (int j = 0; j < m; j++)   /* check that everything has been eliminated */
		if (b[j] != 0)''','''	for (int j = n; j < m; j++)   /* check that everything has been eliminated */
		if (b[j] != 0)''')],"an inconsistent system whose residual lives on a column of small index without a pivot","spasm_solve reports success for a right-hand side outside the row space",H+'''
int main(void) {
	ll p = 65537; 	struct spasm_triplet *T = spasm_triplet_alloc(2, 4, 1, p, true);
	spasm_add_entry(T, 0, 2, 1); spasm_add_entry(T, 1, 3, 1);
	struct spasm_csr *A = spasm_compress(T);
	struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.L = 1;
	struct spasm_lu *f = spasm_echelonize(A, &o);
	spasm_ZZp b[4] = {1, 0, 7, 8}, x[2];
	CHECK(!spasm_solve(f, b, x), "the system has no solution");
	return 0;
}
''')
if only("verify_bot_residue"): mk("verify_bot_residue","C06",[(S+"certificate.c","	spasm_ZZp BOT = 0x7fffffff;        /* compute y */\n","	spasm_ZZp BOT = -1;                /* compute y */\n")],"a response equal to -1 in the certificate","the verifier takes a response of -1 for a missing one: an honest certificate is refused",H+CERT+'''
int main(void) {
	for (int t = 0; t < 200; t++) { u8 h[32]; for (int i = 0; i < 32; i++) h[i] = rnd(); struct spasm_csr *A = mat(10, 8, t % 2 ? 5 : 3, 3); struct spasm_rank_certificate *c = cert(A, h); CHECK(spasm_certificate_rank_verify(A, h, c), "an honest certificate is refused"); }
	return 0;
}
''')
if only("cert_save_hex"): mk("cert_save_hex","C06",[(S+"certificate.c",'fprintf(f, "%02x", proof->hash[i]);','fprintf(f, "%2x", proof->hash[i]);')],"a digest with a byte below 16","a certificate that was saved cannot be loaded again",H+CERT+'''
int main(void) {
	for (int t = 0; t < 20; t++) { u8 h[32]; for (int i = 0; i < 32; i++) h[i] = rnd(); struct spasm_csr *A = mat(10, 8, 257, 3); struct spasm_rank_certificate *c = cert(A, h);
		FILE *f = fopen("c", "w"); spasm_rank_certificate_save(c, f); fclose(f); f = fopen("c", "r"); struct spasm_rank_certificate d; CHECK(spasm_rank_certificate_load(f, &d), "saved certificate refused"); fclose(f);
		CHECK(spasm_certificate_rank_verify(A, h, &d), "reloaded certificate refused"); }
	return 0;
}
''')
if only("cert_hash_strncmp"): mk("cert_hash_strncmp","C07",[(S+"certificate.c",'''	for (int i = 0; i < 32; i++)
		if (hash[i] != proof->hash[i])
			return 0;
''','''	if (strncmp((const char *) hash, (const char *) proof->hash, 32) != 0)
		return 0;
'''),(S+"certificate.c","#include <ctype.h>\n","#include <ctype.h>\n#include <string.h>\n")],"a matrix whose digest contains a zero byte","the digests are compared as strings: a certificate made for another file is accepted",H+CERT+'''
int main(void) {
	u8 h[32], g[32]; for (int i = 0; i < 32; i++) g[i] = h[i] = rnd() | 1; h[3] = g[3] = 0; struct spasm_csr *A = mat(10, 8, 65537, 3);
	struct spasm_rank_certificate *c = cert(A, h); CHECK(spasm_certificate_rank_verify(A, h, c), "refused");
	g[20] ^= 4; CHECK(!spasm_certificate_rank_verify(A, g, c), "certificate for another digest accepted");
	return 0;
}
''')
if only("cert_y_tail_only"): mk("cert_y_tail_only","C07",[(S+"certificate.c",'''	for (int j = 0; j < m; j++) {
		if (y[j] != 0)
			correct = 0;
	}
''','''	for (int k = 0; k < r; k++) {
		if (y[proof->j[k]] != 0)
			correct = 0;
	}
''')],"a certificate that claims a smaller rank than the true one","only the pivotal columns are checked: a rank that is too small is accepted",H+CERT+'''
int main(void) {
	/* an honest certificate of the leading part of A is a certificate of A for this verifier */
	ll p = 65537; u8 h[32]; for (int i = 0; i < 32; i++) h[i] = rnd();
	struct spasm_triplet *T = spasm_triplet_alloc(3, 3, 1, p, true); spasm_add_entry(T, 0, 0, 1); spasm_add_entry(T, 1, 1, 1); spasm_add_entry(T, 2, 2, 1);
	struct spasm_csr *A = spasm_compress(T); T->nz = 2; T->n = 3; T->m = 3; struct spasm_csr *B = spasm_compress(T);
	struct spasm_rank_certificate *c = cert(B, h); CHECK(c->r == 2 && spasm_certificate_rank_verify(B, h, c), "refused");
	CHECK(!spasm_certificate_rank_verify(A, h, c), "rank 2 accepted for a matrix of rank 3");
	return 0;
}
''')
if only("dm_blocks_c1"): mk("dm_blocks_c1","C13",[(S+"dm.c","		c[i + 1] = cc[2] + scc_c[i];","		c[i + 1] = cc[1] + scc_c[i];")],"a matrix with a horizontal part (C1 not empty) and a square part","the column boundaries of the fine blocks are wrong",H+'''
int main(void) {
	struct spasm_triplet *T = spasm_triplet_alloc(3, 4, 1, 65537, true);
	spasm_add_entry(T, 0, 0, 1); spasm_add_entry(T, 0, 1, 1); spasm_add_entry(T, 1, 2, 1); spasm_add_entry(T, 2, 3, 1); spasm_add_entry(T, 2, 2, 1);
	struct spasm_dm *D = spasm_dulmage_mendelsohn(spasm_compress(T));
	for (int k = 1; k < D->nb - 1; k++) CHECK(D->r[k + 1] - D->r[k] == D->c[k + 1] - D->c[k] && D->c[k] >= D->cc[2], "block %d is not a diagonal block of the square part: rows %d:%d, columns %d:%d", k, D->r[k], D->r[k + 1], D->c[k], D->c[k + 1]);
	return 0;
}
''')
if only("dedup_row_head"): mk("dedup_row_head","C15",[(S+"triplet.c","if (v[j] < p) { /* 1st","if (v[j] <= p) { /* 1st")],"a position given twice that is the first one of its row","the two entries are kept instead of being added",H+'''
int main(void) {
	struct spasm_triplet *T = spasm_triplet_alloc(2, 3, 1, 65537, true);
	spasm_add_entry(T, 1, 2, 5); spasm_add_entry(T, 1, 0, 7); spasm_add_entry(T, 1, 2, 9); 
	struct spasm_csr *A = spasm_compress(T);
	CHECK(spasm_nnz(A) == 2, "%d entries", (int) spasm_nnz(A));
	return 0;
}
''')
if only("submatrix_sorted"): mk("submatrix_sorted","C16",[(S+"submatrix.c",'''			if (c_0 <= j && j < c_1) {''','''			if (j >= c_1)
				break;
			if (c_0 <= j) {''')],"a row whose entries are not sorted by column","entries that follow an entry on the right of the submatrix are lost",H+'''
int main(void) {
	struct spasm_triplet *T = spasm_triplet_alloc(1, 4, 1, 65537, true);
	spasm_add_entry(T, 0, 3, 5); spasm_add_entry(T, 0, 1, 7); 
	struct spasm_csr *B = spasm_submatrix(spasm_compress(T), 0, 1, 0, 2, true);
	CHECK(spasm_nnz(B) == 1 && B->j[0] == 1 && B->x[0] == 7, "entry lost");
	return 0;
}
''')
if only("mm_comment_digest"): mk("mm_comment_digest","C17",[(S+"io.c",'''			eof = read_line("spasm_triplet_load", line, buffer, 1024, ctx, f);
			if (eof)
				errx(1, "premature EOF on line''','''			eof = read_line("spasm_triplet_load", line, buffer, 1024, (buffer[0] == '%' && buffer[1] != '%') ? NULL : ctx, f);
			if (eof)
				errx(1, "premature EOF on line''')],"a MatrixMarket file with at least one comment line after the header","the digest is not the SHA-256 of the file: lines that follow a comment are left out",H+'''
int main(void) {
	FILE *f = fopen("m.mtx", "w"); fprintf(f, "%%%%MatrixMarket matrix coordinate integer general\\n%% one\\n%% two\\n2 2 1\\n1 1 3\\n"); fclose(f);
	u8 h[32], w[32]; f = fopen("m.mtx", "r"); spasm_triplet_load(f, 65537, h); fclose(f);
	f = popen("sha256sum m.mtx", "r"); for (int i = 0; i < 32; i++) { unsigned v; if (fscanf(f, "%2x", &v) != 1) return 3; w[i] = v; } pclose(f);
	CHECK(!memcmp(h, w, 32), "digest differs from sha256sum");
	return 0;
}
''')
if only("sha_bit_count"): mk("sha_bit_count","C19",[("src/sha256.c","c->Nh += (HASH_LONG) (len >> 29);","c->Nh += (HASH_LONG) (len >> 32);")],"a single update of at least 2^29 bytes","the high half of the length is wrong: the digest is not SHA-256",H+'''
int main(void) {
	size_t N = (1ull << 29) + 100; u8 *b = calloc(N, 1), h[32], w[32]; b[77] = 1;
	spasm_sha256_ctx c; spasm_SHA256_init(&c); spasm_SHA256_update(&c, b, N); spasm_SHA256_final(h, &c);
	FILE *f = popen("(head -c 77 /dev/zero; printf '\\\\001'; head -c 536870934 /dev/zero) | sha256sum", "r"); for (int i = 0; i < 32; i++) { unsigned v; if (fscanf(f, "%2x", &v) != 1) return 3; w[i] = v; } pclose(f);
	CHECK(!memcmp(h, w, 32), "wrong digest");
	return 0;
}
''')
if only("float_limit"): mk("float_limit","C20",[(S+"ffpack.cpp","if (prime <= 8191)","if (prime <= 16381)")],"a prime between 8192 and 16381 and a dense part of moderate size","floats cannot hold the products any more: wrong echelon forms",H+'''
int main(void) {
	ll p = 16381; int n = 40, m = 50; spasm_datatype d = spasm_datatype_choose(p); spasm_field F; spasm_field_init(p, F);
	for (int t = 0; t < 20; t++) {
	char *S = malloc(n * m * spasm_datatype_size(d)); ll *D = malloc(2 * n * m * sizeof *D); size_t q[50];
	for (int i = 0; i < n * m; i++) { spasm_ZZp x = spasm_ZZp_init(F, rnd() % p); spasm_datatype_write(S, i, d, x); D[i] = md(x, p); }
	for (int j = 0; j < m; j++) D[(n - 1) * m + j] = md(D[j] + D[m + j], p), spasm_datatype_write(S, (n - 1) * m + j, d, spasm_ZZp_init(F, D[(n - 1) * m + j]));
	int r0 = drank(D, n, m, p), r = spasm_ffpack_rref(p, n, m, S, m, d, q);
	CHECK(r == r0, "rank %d instead of %d", r, r0);
	for (int i = 0; i < r; i++) { for (int j = 0; j < m; j++) D[(n + i) * m + j] = 0; D[(n + i) * m + q[i]] = 1; for (int k = r; k < m; k++) D[(n + i) * m + q[k]] = md(spasm_datatype_read(S, i * m + k, d), p); }
	CHECK(drank(D, n + r, m, p) == r0, "the reduced rows do not span the rows");
	}
	return 0;
}
''')
if only("pnm_int_overflow"): mk("pnm_int_overflow","C22",[(S+"io.c","int t = ((i64) Aj[px]) * x / m;","int t = Aj[px] * x / m;")],"an image for which width times the number of columns exceeds 2^31","entries land on the wrong pixel (or outside of the image)",H+'''
int main(void) {
	int m = 60000; struct spasm_triplet *T = spasm_triplet_alloc(1, m, 1, 65537, true); spasm_add_entry(T, 0, m - 1, 1); spasm_add_entry(T, 0, 40000, 1);
	FILE *f = fopen("p", "w"); spasm_save_pnm(spasm_compress(T), f, m, 1, 1, NULL); fclose(f); f = fopen("p", "r"); int w, h, v; CHECK(fscanf(f, "P1 %d %d", &w, &h) == 2 && w == m && h == 1, "header");
	for (int j = 0; j < m; j++) { CHECK(fscanf(f, "%d", &v) == 1 && v == (j == m - 1 || j == 40000), "pixel %d", j); }
	return 0;
}
''')
