import sys
D="/tmp/refac/r/src/"
def ed(f,*prs):
    s=open(D+f).read()
    for a,b in prs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b)
    open(D+f,'w').write(s)
# schur: helper for waiting, L before S, memcpy of local row
ed("spasm_schur.c",
("""					/* wait until other threads stop writing into it */
					#pragma omp flush(writing)
					while (writing > 0) {
						#pragma omp flush(writing)
					}
""","""					wait_for_writers(&writing);
"""),
("""/*
 * Computes the Schur complement of (P*A)[0:n] w.r.t. U
""","""/* spin until nobody writes */
static void wait_for_writers(const int *writing)
{
	int w;
	do {
		#pragma omp atomic read
		w = *writing;
	} while (w > 0);
}

static inline void store_entry(int *Xj, spasm_ZZp *Xx, i64 *pos, int j, spasm_ZZp x)
{
	Xj[*pos] = j;
	Xx[*pos] = x;
	(*pos)++;
}

/*
 * Computes the Schur complement of (P*A)[0:n] w.r.t. U
"""),
("""				if (qinv[j] < 0) {
					Sj[local_snz] = j;
					Sx[local_snz] = x[j];
					local_snz += 1;
				} else if""","""				if (qinv[j] < 0) {
					store_entry(Sj, Sx, &local_snz, j, x[j]);
				} else if"""),
("critical(schur_complement)","critical(sc)"),
("schedule(dynamic, verbose_step)\n		for (int i = 0; i < n; i++) {\n			int inew = p[i];","schedule(dynamic, verbose_step) nowait\n		for (int i = 0; i < n; i++) {\n			int inew = p[i];"),
("		for (int j = 0; j < 3 * m; j++)\n			xj[j] = 0;\n		int tid","		for (int j = 3 * m - 1; j >= 0; j--)\n			xj[j] = 0;\n		int tid"),
("					#pragma omp atomic capture\n					{ local_nz = L->nz; L->nz += 1; } \n","					#pragma omp critical(Lnz)\n					{ local_nz = L->nz++; }\n"),
)
ed("spasm_pivots.c",
("""			#pragma omp critical
			{
				if (npiv == npiv_local) {
					/* success */
					int result = register_pivot(i, j, pinv, qinv);
					journal[npiv] = j;
					#pragma omp atomic update
					npiv += result;
				} else {
					/* failure */
					#pragma omp atomic read
					npiv_target = npiv;
				}
			}
""","""			#pragma omp critical(transaction)
			npiv_target = commit_pivot(&npiv, npiv_local, i, j, pinv, qinv, journal);
"""),
("""static int spasm_find_cycle_free_pivots(""","""/* returns -1 on success, or the current number of pivots */
static int commit_pivot(int *npiv, int seen, int i, int j, int *pinv, int *qinv, int *journal)
{
	int current;
	#pragma omp atomic read
	current = *npiv;
	if (current != seen)
		return current;
	journal[current] = j;
	int result = register_pivot(i, j, pinv, qinv);
	#pragma omp atomic update
	*npiv += result;
	return -1;
}

static int spasm_find_cycle_free_pivots("""),
("""			for (int px = 0; px < tail; px++) {
				int j = queue[px];
				w[j] = 0;
			}
""","""			while (tail > 0)
				w[queue[--tail]] = 0;
"""),
("schedule(dynamic, 1000)","schedule(dynamic, 1)"),
)
ed("spasm_rref.c",("""		#pragma omp for
		for (int j = 0; j < m; j++)
			Rqinv[j] = -1;

		#pragma omp for
		for (int i = 0; i < n; i++) {
			int px = Rp[i];
			int j = Rj[px];
			Rqinv[j] = i;
		}
	}
""","""	}
	for (int j = 0; j < m; j++)
		Rqinv[j] = -1;
	for (int i = 0; i < n; i++)
		Rqinv[Rj[Rp[i]]] = i;
"""),("""			writing--;
""","""			writing = writing - 1;
"""),
("""		int *qinv_local = spasm_malloc(m * sizeof(int));
		for (int j = 0; j < m; j++)
			qinv_local[j] = Uqinv[j];
""","""		int *qinv_local = spasm_malloc(m * sizeof(int));
		memcpy(qinv_local, Uqinv, m * sizeof(int));
"""),("#include <stdio.h>","#include <stdio.h>\n#include <string.h>"),
("""			/* write the new row in R */
			for (int px = top; px < m; px++) {
				int j = xj[px];
				if (qinv_local[j] < 0 && x[j] != 0) {
					Rj[local_nnz] = xj[px];
					Rx[local_nnz] = x[j];
					local_nnz += 1;
				}
			}
""","""			/* write the new row in R */
			int *bj = spasm_malloc((row_nz + 1) * sizeof(int));
			spasm_ZZp *bx = spasm_malloc((row_nz + 1) * sizeof(spasm_ZZp));
			int k = 0;
			for (int px = top; px < m; px++) {
				int j = xj[px];
				if (x[j] == 0 || qinv_local[j] >= 0)
					continue;
				bj[k] = j;
				bx[k++] = x[j];
			}
			memcpy(Rj + local_nnz, bj, k * sizeof(int));
			memcpy(Rx + local_nnz, bx, k * sizeof(spasm_ZZp));
			local_nnz += k;
			free(bj);
			free(bx);
"""))
ed("spasm_kernel.c",("""			/* write the new row in K */
			Kj[local_nnz] = j;
			Kx[local_nnz] = -1;
			local_nnz += 1;
			for (int px = top; px < n; px++) {
				int jj = xj[px];
				if (x[jj] != 0) {
					int ii = Utqinv[jj];
					Kj[local_nnz] = ii;
					Kx[local_nnz] = x[jj];
					local_nnz += 1;
				}
			}
			Kp[local_i + 1] = local_nnz;
""","""			/* write the new row in K */
			Kp[local_i + 1] = local_nnz + row_nz;
			for (int px = n - 1; px >= top; px--) {
				int jj = xj[px];
				if (x[jj] == 0)
					continue;
				Kj[local_nnz] = Utqinv[jj];
				Kx[local_nnz] = x[jj];
				local_nnz += 1;
			}
			Kj[local_nnz] = j;
			Kx[local_nnz] = -1;
"""),("schedule(guided)","schedule(dynamic)"),("""				/* this thread will write into K */
				#pragma omp atomic update
				writing += 1;
			}
""","""				/* this thread will write into K */
				#pragma omp atomic
				writing++;
			}
"""))
ed("spasm_solve.c",("""	for (int i = 0; i < m; i++)
		y[i] = b[i];
	bool ok = spasm_dense_forward_solve(U, y, z, Uq);

	/* y.LU = b */
	spasm_dense_back_solve(L, z, x, fact->p);
	
	free(y);
	free(z);
	free(Uq);
""","""	memcpy(y, b, m * sizeof(*y));
	bool ok = spasm_dense_forward_solve(U, y, z, Uq);
	free(y);
	free(Uq);

	/* y.LU = b */
	spasm_dense_back_solve(L, z, x, fact->p);
	free(z);
"""),("#include <stdlib.h>","#include <stdlib.h>\n#include <string.h>"),
("""				if (x[j] != 0) {
					i64 xnz;
					#pragma omp atomic capture
					{ xnz = X->nz; X->nz += 1; }
					Xi[xnz] = i;
					Xj[xnz] = j;
					Xx[xnz] = x[j];
				}
""","""				if (x[j] != 0) {
					#pragma omp critical(gesv)
					{
						Xi[X->nz] = i;
						Xj[X->nz] = j;
						Xx[X->nz] = x[j];
						X->nz += 1;
					}
				}
"""))
ed("spasm_matching.c",("for (i64 px = Ap[i] + plookahead[i]; px < Ap[i + 1]; px++) {","for (i64 px = Ap[i + 1] - 1 - plookahead[i]; px >= Ap[i]; px--) {"),
("			plookahead[i] = px - Ap[i];\n","			plookahead[i] = Ap[i + 1] - 1 - px;\n"),
("			pstack[head] += 1;","			pstack[head] = px + 1 - Ap[i];"),
("	fflush(stderr);","	fflush(stderr);\n"))
ed("spasm_scc.c",("	free(stack);","	free(prev);\n	free(stack);"),("lowlink[j] = spasm_min(lowlink[j], lowlink[k]);\n					continue;","if (lowlink[k] < lowlink[j])\n						lowlink[j] = lowlink[k];\n					continue;"))
ed("spasm_dm.c",("	struct spasm_csr * A_t","	/* the transpose serves both searches */\n	struct spasm_csr * A_t"),("	if (n < m) {","	if (n <= m) {"))
ed("spasm_certificate.c",("""	for (int i = 0; i < 32; i++)
		if (hash[i] != proof->hash[i])
			return 0;

	if (spasm_get_prime(A) != proof->prime)
		return 0;

	if (r < 0 || r > n || r > m)
		return 0;
""","""	if (r < 0 || r > n || r > m)
		return 0;
	if (spasm_get_prime(A) != proof->prime)
		return 0;
	int diff = 0;
	for (int i = 31; i >= 0; i--)
		diff |= hash[i] ^ proof->hash[i];
	if (diff)
		return 0;
"""),("""		if (y[j] != spasm_prng_ZZp(&ctx))
			correct = 0;
""","""		spasm_ZZp expected = spasm_prng_ZZp(&ctx);
		correct = correct && (y[j] == expected);
"""))
ed("spasm_triplet.c",("	i64 *w = spasm_malloc(n * sizeof(*w));\n	for (int i = 0; i < n; i++)\n		w[i] = 0;\n","	i64 *w = spasm_calloc(n, sizeof(*w));\n"),
("	for (int it = 0; it < nz; it++) {\n		int i = Ti[it];\n		assert(i < n);\n		w[i] += 1;\n	}\n","	for (i64 it = nz; it-- > 0; ) {\n		assert(Ti[it] < n);\n		w[Ti[it]]++;\n	}\n"),
("		spasm_triplet_realloc(T, 1 + 2 * T->nzmax);","		spasm_triplet_realloc(T, 16 + 3 * T->nzmax);"))
ed("spasm_ZZp.c",("""	i64 q = ((double) a) * ((double) b) * F->dinvp;
	return NORMALISE(F, (i64) a * (i64) b - q * F->p);
""","""	return spasm_ZZp_init(F, (i64) a * (i64) b);
"""),("""	i64 q = (((((double) a) * ((double) x)) + (double) y) * F->dinvp);
	i64 aa = a;
	i64 xx = x;
	i64 yy = y;
	return NORMALISE(F, aa * xx + yy - q * F->p);
""","""	return spasm_ZZp_init(F, (i64) a * x + y);
"""))
ed("spasm_prng.c",("""                if (x < ctx->prime)
                        return spasm_ZZp_init(ctx->field, x);
""","""                if (x >= ctx->prime)
                        continue;
                return spasm_ZZp_init(ctx->field, x);
"""))
ed("spasm_transpose.c",("	i64 *w = spasm_calloc(m, sizeof(*w));","	i64 *w = spasm_malloc(m * sizeof(*w));\n	for (int j = 0; j < m; j++)\n		w[j] = 0;"),
("	for (int i = 0; i < n; i++)\n		for (i64 px = Cp[i]; px < Cp[i + 1]; px++) {\n			int j = Cj[px];\n			w[j] += 1;\n		}\n","	for (i64 px = 0; px < Cp[n]; px++)\n		w[Cj[px]] += 1;\n"))
ed("spasm_triangular.c",("""	for (int px = top; px < m; px++) {
		int j = xj[px];
		x[j] = 0;
	}
	spasm_scatter(B, k, 1, x);
""","""	for (int px = m - 1; px >= top; px--)
		x[xj[px]] = 0;
	for (i64 px = B->p[k]; px < B->p[k + 1]; px++)
		x[B->j[px]] = B->x[px];
"""))
ed("spasm_echelonize.c",("""	for (i = 0; i < n; i++) {
		/* test for early abort (if L not needed) */
""","""	for (i = 0; i < n; i++) {
		/* early abort ? (if L not needed) */
"""),("""				// fprintf(stderr, "setting U[%d, %d] <--- %d\\n", U->n, j, Ux[unz]);
				unz += 1;""","""				unz++;"""),
("				if (j < jpiv)\n					jpiv = j;","				if (jpiv == m || j > jpiv)\n					jpiv = j;"))
ed("spasm_io.c",("""	fprintf(f, "%d %d M\\n", n, m);
""","""	char header[64];
	snprintf(header, sizeof(header), "%d %d M\\n", n, m);
	fputs(header, f);
"""),("""	for (i64 i = 0; i < n; i++) {
		i64 k = i * y / n;
		int *ww = w + k * x;
		for (i64 px = Ap[i]; px < Ap[i + 1]; px++) {
			int t = ((i64) Aj[px]) * x / m;
			ww[t] += 1;
		}
	}
""","""	for (int i = n - 1; i >= 0; i--)
		for (i64 px = Ap[i]; px < Ap[i + 1]; px++)
			w[(i64) i * y / n * x + (i64) Aj[px] * x / m]++;
"""))
ed("spasm_util.c",("	A->p = spasm_malloc((n + 1) * sizeof(i64));\n	A->j","	A->p = spasm_calloc(n + 1, sizeof(i64));\n	A->j"))
