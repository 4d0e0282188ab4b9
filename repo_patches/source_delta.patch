From 936dd6d956f15096aa1e3ce9c490a9aef6ecc228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 01/24] fix: removing cancelled entries must not move entries
 of one row into the next

remove_explicit_zeroes() overwrites Ap[i+1] with the compacted end of row i and
then used it as the start of row i+1, so that entries of row i were copied into
row i+1 as soon as some coefficient cancelled.
---
 src/spasm_triplet.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index 9c1cb58..4d1acce 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -42,8 +42,10 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 	if (Ax == NULL)
 		return;
 	i64 nz = 0;
+	i64 start = 0;                  /* Ap[i] before it was overwritten */
 	for (int i = 0; i < n; i++) {
-		for (i64 it = Ap[i]; it < Ap[i + 1]; it++) {
+		i64 end = Ap[i + 1];
+		for (i64 it = start; it < end; it++) {
 			int j = Aj[it];
 			spasm_ZZp x = Ax[it];
 			if (x == 0)
@@ -53,6 +55,7 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 			nz += 1;
 		}
 		Ap[i + 1] = nz;
+		start = end;
 	}
 	spasm_csr_realloc(A, -1);
 }
-- 
2.43.0


From 4944e6472683bfa5b44d032d4c8d46cae758ff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:34 +0000
Subject: [PATCH 02/24] fix: an empty row range in spasm_submatrix must not
 write before the row pointers

With r_1 < r_0 the result has no row (Bn = 0), but Bp[r_1 - r_0] was written.
---
 src/spasm_submatrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_submatrix.c b/src/spasm_submatrix.c
index 78bd92f..758a095 100644
--- a/src/spasm_submatrix.c
+++ b/src/spasm_submatrix.c
@@ -35,7 +35,7 @@ struct spasm_csr *spasm_submatrix(const struct spasm_csr * A, int r_0, int r_1,
 	}
 
 	/* finalize */
-	Bp[r_1 - r_0] = k;
+	Bp[Bn] = k;
 
 	/* shrink */
 	spasm_csr_realloc(B, -1);
-- 
2.43.0


From 71a8e98fd1fbab68a13a0b4858abed6eb274030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 03/24] fix: GPLU on a Schur complement must not stop before
 the rank is reached

---
 src/spasm_echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 8c0778c..45167d3 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -56,11 +56,11 @@ static void echelonize_GPLU(const struct spasm_csr *A, const int *p, int n, cons
 	(void) opts;
 	assert(p != NULL);
 	int m = A->m;
-	int r = spasm_min(A->n, m);  /* upper-bound on rank */
 	int verbose_step = spasm_max(1, n / 1000);
 	fprintf(stderr, "[echelonize/GPLU] processing matrix of dimension %d x %d\n", n, m);
 	
 	struct spasm_csr *U = fact->U;
+	int r = U->n + spasm_min(n, m - U->n);  /* upper-bound on rank (A can be a schur complement) */
 	struct spasm_triplet *L = fact->Ltmp;
 	int *Uqinv = fact->qinv;
 	i64 *Up = U->p;
-- 
2.43.0


From f06e5537df449cbccb744c52e2235f32144578fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 04/24] fix: bound the remaining rank by the remaining rows
 when switching to low-rank mode

---
 src/spasm_echelonize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 45167d3..7bdef96 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -407,7 +407,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	fprintf(stderr, "[echelonize/dense] processing dense schur complement of dimension %d x %d; block size=%d, type %s\n", 
 		n, Sm, opts->dense_block_size, spasm_datatype_name(datatype));
 	bool lowrank_mode = 0;
-	int rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+	int rank_ub = spasm_min(n, m - U->n);
 
 	for (;;) {
 		/* compute a chunk of the schur complement, then echelonize with FFPACK */
@@ -436,7 +436,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 		processed += Sn;
 		p += Sn;
 		Sm = m - U->n;
-		rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+		rank_ub = spasm_min(n - processed, m - U->n);
 		fprintf(stderr, "[echelonize/dense] found %d new pivots\n", rr);
 
 		/* 
-- 
2.43.0


From be8d2702d4db11de9fdf0f363cbd2634d37e3445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 05/24] fix: low-rank mode must keep sampling all the rows,
 with fresh combinations

---
 src/spasm_echelonize.c | 1 -
 src/spasm_schur.c      | 3 ++-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 7bdef96..4b153f4 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -366,7 +366,6 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 			fprintf(stderr, "[echelonize/dense/low-rank] Not enough pivots, increasing weight to %d\n", w);
 		}
 		update_U_after_rref(rr, Sm, S, datatype, Sp, q, fact);
-		n -= rr;
 		Sm -= rr;
 		rank_ub -= rr;
 		round += 1;
diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index 80b3423..f01acc4 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -356,6 +356,7 @@ void spasm_schur_dense_randomized(const struct spasm_csr *A, const int *p, int n
 	prepare_q(m, qinv, q);
 	fprintf(stderr, "[schur/dense/random] dimension %d x %d, weight %d...\n", N, Sm, w);
 	double start = spasm_wtime();
+	u64 seed = rand();         /* successive invokations must use distinct combinations */
 	int verbose_step = spasm_max(1, N / 1000);
 
 	#pragma omp parallel
@@ -366,7 +367,7 @@ void spasm_schur_dense_randomized(const struct spasm_csr *A, const int *p, int n
 		#pragma omp for schedule(dynamic, verbose_step)
 		for (i64 k = 0; k < N; k++) {
 			spasm_prng_ctx ctx;
-			spasm_prng_seed_simple(prime, k, 0, &ctx);
+			spasm_prng_seed_simple(prime, seed, k, &ctx);
 
 			for (int j = 0; j < m; j++)
 				y[j] = 0;
-- 
2.43.0


From 57383b09bb566ba79a6a4376eb4ed003b736662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 06/24] fix: spasm_kernel_from_rref must store canonical
 coefficients

---
 src/spasm_kernel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 7bc4a06..71ba2a9 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -160,7 +160,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 		if (qinv[j] >= 0)
 			continue;           /* skip pivotal columns of R */
 		Kj[nnz] = j;
-		Kx[nnz] = prime - 1;
+		Kx[nnz] = -1;
 		nnz += 1;
 		for (i64 px = Rtp[j]; px < Rtp[j + 1]; px++) {
 			int i = Rtj[px];
-- 
2.43.0


From 2363393bdfc1bdad2e7320a76d1bfefd6da9b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 07/24] fix: loading a rank certificate must restore the
 pivotal columns

---
 src/spasm_certificate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index c5aa5ae..366388d 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -262,7 +262,7 @@ bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 	for (int k = 0; k < r; k++)
 		fscanf(f, "%d", &proof->i[k]);
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
+		fscanf(f, "%d", &proof->j[k]);
 	for (int k = 0; k < r; k++)
 		fscanf(f, "%d", &proof->x[k]);
 	for (int k = 0; k < r; k++)
-- 
2.43.0


From 3d99d4f38d160cf7388c895529280ed6e687f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 08/24] fix: refuse truncated or malformed rank certificate
 files

---
 src/spasm_certificate.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 366388d..06340ff 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -1,3 +1,4 @@
+#include <ctype.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <assert.h>
@@ -243,29 +244,36 @@ void spasm_rank_certificate_save(const struct spasm_rank_certificate *proof, FIL
 bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 {
 	int r;
-	if (1 != fscanf(f, "%d", &r))
+	if (1 != fscanf(f, "%d", &r) || r < 0)
 		return 0;
 	proof->r = r;
-	proof->i = malloc(r * sizeof(*proof->i));
-	proof->j = malloc(r * sizeof(*proof->i));
-	proof->x = malloc(r * sizeof(*proof->i));
-	proof->y = malloc(r * sizeof(*proof->i));
+	proof->i = spasm_malloc(r * sizeof(*proof->i));
+	proof->j = spasm_malloc(r * sizeof(*proof->j));
+	proof->x = spasm_malloc(r * sizeof(*proof->x));
+	proof->y = spasm_malloc(r * sizeof(*proof->y));
 	if (1 != fscanf(f, "%" SCNd64 "\n", &proof->prime))
 		return 0;
 	char hash[65];
 	if (NULL == fgets(hash, 65, f))
 		return 0;
+	for (int i = 0; i < 64; i++)
+		if (!isxdigit((unsigned char) hash[i]))
+			return 0;
 	for (int i = 0; i < 32; i++) {
 		char byte[3] = {hash[2*i], hash[2*i+1], 0};
 		proof->hash[i] = strtoul(byte, NULL, 16);
 	}
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
+		if (1 != fscanf(f, "%d", &proof->i[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->j[k]);
+		if (1 != fscanf(f, "%d", &proof->j[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->x[k]);
+		if (1 != fscanf(f, "%d", &proof->x[k]))
+			return 0;
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->y[k]);
+		if (1 != fscanf(f, "%d", &proof->y[k]))
+			return 0;
 	return 1;
 }
\ No newline at end of file
-- 
2.43.0


From 10885372a2b06f26a73732c529e2a0d2bfa41eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 09/24] fix: check_cert must not examine a certificate that
 could not be loaded

---
 tools/check_cert.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/check_cert.c b/tools/check_cert.c
index 2f6d717..c30a08e 100644
--- a/tools/check_cert.c
+++ b/tools/check_cert.c
@@ -70,7 +70,10 @@ int main(int argc, char **argv)
 	/* load certificate */
 	FILE *f = open_input(args.cert_file);
 	struct spasm_rank_certificate proof;
-	spasm_rank_certificate_load(f, &proof);
+	if (!spasm_rank_certificate_load(f, &proof)) {
+		fprintf(stderr, "ERROR: malformed certificate\n");
+		exit(1);
+	}
 
 	bool correct = spasm_certificate_rank_verify(A, hash, &proof);
 	
-- 
2.43.0


From e9274f6bba75aaafebe8d0454c65c367a18295c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 10/24] fix: check_cert reported correct certificates as
 incorrect and vice versa

---
 tools/check_cert.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/check_cert.c b/tools/check_cert.c
index c30a08e..6a3b2b9 100644
--- a/tools/check_cert.c
+++ b/tools/check_cert.c
@@ -77,9 +77,9 @@ int main(int argc, char **argv)
 
 	bool correct = spasm_certificate_rank_verify(A, hash, &proof);
 	
-	if (!correct)
+	if (correct)
 		fprintf(stderr, "CORRECT certificate\n");
 	else
 		fprintf(stderr, "INCORRECT certificate\n");	
-	return correct;
+	return correct ? EXIT_SUCCESS : EXIT_FAILURE;
 }
\ No newline at end of file
-- 
2.43.0


From c0489b653dc65bcd9be2e0c796da8a9afc8a1670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 11/24] fix: rank certificates must be about the input matrix,
 not its transpose

---
 tools/rank.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/rank.c b/tools/rank.c
index 1437cab..f25809d 100644
--- a/tools/rank.c
+++ b/tools/rank.c
@@ -81,7 +81,7 @@ int main(int argc, char **argv)
 	/* load input matrix */
 	u8 hash[32];
 	struct spasm_triplet *T = load_input_matrix(&args.input, hash);
-	if (args.allow_transpose && (T->n < T->m)) {
+	if (args.allow_transpose && !args.certificate && (T->n < T->m)) {   /* the certificate is about the matrix in the file */
 		fprintf(stderr, "[rank] transposing matrix : ");
 		fflush(stderr);
 		spasm_triplet_transpose(T);
-- 
2.43.0


From c9fd71c3241132aac78b596741f64123061e4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 12/24] fix: the echelonize tool must not truncate moduli above
 2^31

---
 tools/echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/echelonize.c b/tools/echelonize.c
index 6514a63..40e007c 100644
--- a/tools/echelonize.c
+++ b/tools/echelonize.c
@@ -27,7 +27,7 @@ void parse_command_line_options(int argc, char **argv)
 	while ((ch = getopt_long(argc, argv, "", longopts, NULL)) != -1) {
 		switch (ch) {
 		case 'p':
-			prime = atoi(optarg);
+			prime = atoll(optarg);
 			break;
 		case 'r':
 			rref = 1;
-- 
2.43.0


From 5ade5caa05f0cc340fb4e661be9f725d5d7a3565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 13/24] fix: gray-level image of a matrix without entries

---
 src/spasm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 162470d..cf00c9a 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -229,7 +229,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 		}
 	}
 
-	double max = 0;
+	double max = 1;        /* keep the intensities defined when there are no entries */
 	for (int j = 0; j < x * y; j++)
 		max = spasm_max(max, w[j]);
 
-- 
2.43.0


From 68a6a4fdbd8ce0fdf943419af5eccc6360125402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 14/24] fix: accept MatrixMarket files without entries

---
 src/spasm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index cf00c9a..f3047d2 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -111,7 +111,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 	struct spasm_triplet *T = spasm_triplet_alloc(i, j, nnz, prime, prime != -1);
 
 	i64 x;
-	bool end = 0;
+	bool end = (mm && nnz == 0);
 	i64 entries = 0;
 	for (;;) { 
 		line += 1;
-- 
2.43.0


From 315b6c304a521df64de06d3125e13f4c8f96c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 15/24] fix: shrinking an empty factor to size zero must not
 make it lose its coefficient array

---
 src/spasm_util.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index 5ac2909..daf638c 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -80,8 +80,9 @@ void *spasm_calloc(i64 count, i64 size)
 
 void *spasm_realloc(void *ptr, i64 size)
 {
-	void *x = realloc(ptr, size);
-	if (ptr != NULL && x == NULL && size != 0)
+	/* realloc(ptr, 0) releases ptr and returns NULL, but a matrix whose x is NULL has no coefficients at all */
+	void *x = realloc(ptr, (size != 0) ? size : 1);
+	if (ptr != NULL && x == NULL)
 		err(1, "realloc failed");
 	return x;
 }
-- 
2.43.0


From 8c02a7a577163ae5d4b41b13a397533997a530d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 16/24] fix: the certificate verifier must refuse repeated
 pivots and responses that are not residues

---
 src/spasm_certificate.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 06340ff..69cbbe1 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -108,6 +108,9 @@ bool spasm_certificate_rank_verify(const struct spasm_csr *A, const u8 *hash, co
 	if (spasm_get_prime(A) != proof->prime)
 		return 0;
 
+	if (r < 0 || r > n || r > m)
+		return 0;
+
 	for (int k = 0; k < r; k++) {
 		if (proof->i[k] < 0 || proof->i[k] >= n)
 			return 0;
@@ -115,6 +118,26 @@ bool spasm_certificate_rank_verify(const struct spasm_csr *A, const u8 *hash, co
 			return 0;
 	}
 
+	/* a row or a column counts only once */
+	bool *seen_i = spasm_calloc(n, sizeof(*seen_i));
+	bool *seen_j = spasm_calloc(m, sizeof(*seen_j));
+	bool distinct = 1;
+	for (int k = 0; k < r; k++) {
+		if (seen_i[proof->i[k]] || seen_j[proof->j[k]])
+			distinct = 0;
+		seen_i[proof->i[k]] = 1;
+		seen_j[proof->j[k]] = 1;
+	}
+	free(seen_i);
+	free(seen_j);
+	if (!distinct)
+		return 0;
+
+	/* responses are residues, as produced by spasm_ZZp_init */
+	for (int k = 0; k < r; k++)
+		if (proof->x[k] != spasm_ZZp_init(A->field, proof->x[k]) || proof->y[k] != spasm_ZZp_init(A->field, proof->y[k]))
+			return 0;
+
 	spasm_prng_ctx ctx;
 	spasm_prng_seed(proof->hash, proof->prime, 0, &ctx);
 	spasm_ZZp *x = spasm_malloc(n * sizeof(*x));
-- 
2.43.0


From 9da4d1113ab31aa4b020eaa25ea526395d2e52bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 17/24] fix: read matrix files strictly: whole numbers only, no
 index or value beyond its range, every byte in the digest

---
 src/spasm_io.c | 58 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index f3047d2..68d9079 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -5,26 +5,54 @@
 #include <err.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 
 #include "spasm.h"
 
 static bool read_line(const char *fn, i64 line, char *buffer, int size, spasm_sha256_ctx *ctx, FILE *f)
 {
-	if (fgets(buffer, size, f) == NULL) {
-		if (feof(f))
-			return 1;
-		err(1, "[%s] impossible to read line %" PRId64, fn, line);
+	int l = 0;
+	int c = EOF;
+	while (l < size - 1 && (c = getc(f)) != EOF) {
+		buffer[l++] = c;
+		if (c == '\n')
+			break;
 	}
-	int l = strlen(buffer);
+	buffer[l] = '\0';
+	if (ferror(f))
+		err(1, "[%s] impossible to read line %" PRId64, fn, line);
 	if (l == 0)
-		errx(1, "[%s] empty line %" PRId64, fn, line);
- 	if (buffer[l - 1] != '\n' && !feof(f))
+		return 1;
+ 	if (c != '\n' && c != EOF)
  		errx(1, "[%s] line %" PRId64 " too long (> %d)", fn, line, size);
  	if (ctx != NULL)
  		spasm_SHA256_update(ctx, buffer, l);
  	return 0;
 }
 
+/*
+ * read k integers at the beginning of s, each followed by white space or by the end of s. 
+ * Return NULL if this is not possible, otherwise what comes next.
+ */
+static const char * parse_integers(const char *s, int k, i64 *x)
+{
+	for (int t = 0; t < k; t++) {
+		char *end;
+		errno = 0;
+		x[t] = strtoll(s, &end, 10);
+		if (end == s || errno == ERANGE || (*end != '\0' && !isspace((unsigned char) *end)))
+			return NULL;
+		s = end;
+	}
+	return s;
+}
+
+static bool valid_dimension(i64 x)
+{
+	return 0 <= x && x <= INT_MAX;
+}
+
 static void validate_mm_header(const char *buffer)
 {
 	char mtx[1024], crd[1024], data_type[1024], storage_scheme[1024];
@@ -62,6 +90,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 	double start = spasm_wtime();
 	int i, j;
 	i64 nnz = 1;
+	i64 v[3];
 	char buffer[1024];
 	char hnnz[16];
 
@@ -90,8 +119,11 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 			if (buffer[0] != '%')
 				break;
 		}
-		if (sscanf(buffer, "%d %d %" SCNd64 "\n", &i, &j, &nnz) != 3)
+		if (parse_integers(buffer, 3, v) == NULL || !valid_dimension(v[0]) || !valid_dimension(v[1]) || v[2] < 0)
 			errx(1, "[spasm_triplet_load] bad MatrixMarking dimensions (line %" PRId64 ")\n", line);
+		i = v[0];
+		j = v[1];
+		nnz = v[2];
 		spasm_human_format(nnz, hnnz);
 		fprintf(stderr, "[IO] loading %d x %d MatrixMarket matrix modulo %" PRId64 " with %s non-zero... ", 
 			i, j, prime, hnnz);
@@ -99,8 +131,11 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 	} else {
 		/* SMS header */
 		char type;
-		if (sscanf(buffer, "%d %d %c\n", &i, &j, &type) != 3)
+		const char *rest = parse_integers(buffer, 2, v);
+		if (rest == NULL || !valid_dimension(v[0]) || !valid_dimension(v[1]) || sscanf(rest, " %c", &type) != 1)
 			errx(1, "[spasm_triplet_load] bad SMS file (header)\n");
+		i = v[0];
+		j = v[1];
 		if (prime != -1 && type != 'M')
 			errx(1, "[spasm_triplet_load] only ``Modular'' type supported\n");
 		fprintf(stderr, "[IO] loading %d x %d SMS matrix modulo %" PRId64 "... ", i, j, prime);
@@ -125,8 +160,11 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 		if (!end && eof)
 			errx(1, "[spasm_triplet_load] premature end of file (line %" PRId64 ", read %" PRId64" nz)", line, entries);
 
-		if (sscanf(buffer, "%d %d %" SCNd64 "\n", &i, &j, &x) != 3)
+		if (parse_integers(buffer, 3, v) == NULL || !valid_dimension(v[0]) || !valid_dimension(v[1]))
 			errx(1, "parse error line %" PRId64, line);
+		i = v[0];
+		j = v[1];
+		x = v[2];
 		if (i == 0 && j == 0 && x == 0) {
 			if (mm)
 				errx(1, "SMS end marker in MatrixMarket file");
-- 
2.43.0


From f5d48c33703d88a27e4ea46762c0d7bae92ab156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:35 +0000
Subject: [PATCH 18/24] fix: images of empty matrices, of very flat matrices
 and with a single given dimension

---
 src/spasm_io.c | 2 +-
 tools/bitmap.c | 8 ++++----
 tools/dm.c     | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 68d9079..117c09d 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -281,7 +281,7 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	int limits_v[2] = {};
 	int *r = NULL, *c = NULL;
 
-	if (DM != NULL) {
+	if (DM != NULL && n > 0 && m > 0) {
 		int *rr = DM->rr;
 		int *cc = DM->cc;
 		limits_h[0] = ((long long int) cc[2]) * ((long long int) x) / ((long long int) m);
diff --git a/tools/bitmap.c b/tools/bitmap.c
index 687375a..8f841ef 100644
--- a/tools/bitmap.c
+++ b/tools/bitmap.c
@@ -60,13 +60,13 @@ int main(int argc, char **argv) {
 		fprintf(stderr, "[bitmap] targeting %.1f Mpixels ; w=%d, h=%d\n", mpix, w, h);
 	}
 	if ((mpix < 0) && (w < 0) && (h > 0))
-		w = m * (h / n);
+		w = ((double) h) * m / n;
 
 	if ((mpix < 0) && (w > 0) && (h < 0))
-		h = n * (w / m);
+		h = ((double) w) * n / m;
 
-	w = spasm_min(w, m);
-	h = spasm_min(h, n);
+	w = spasm_min(spasm_max(w, 1), m);
+	h = spasm_min(spasm_max(h, 1), n);
 
 	/* go */
 	spasm_save_pnm(A, stdout, w, h, mode, NULL);
diff --git a/tools/dm.c b/tools/dm.c
index b6ec6de..e08a315 100644
--- a/tools/dm.c
+++ b/tools/dm.c
@@ -99,8 +99,8 @@ int main(int argc, char **argv) {
     case 'i':
         ;
         double alpha = sqrt((mpix * 1e6) / (((double) n) * m));
-        int w = alpha * m;
-        int h = alpha * n;
+        int w = spasm_min(spasm_max(alpha * m, 1), m);
+        int h = spasm_min(spasm_max(alpha * n, 1), n);
         spasm_save_pnm(B, stdout, w, h, 3, DM);
         break;
     }    
-- 
2.43.0


From 0f419eea80a8ce5076f79d236d8e2c6e6e643f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 19/24] fix: solve must refuse right-hand sides that do not
 have as many columns as the matrix

---
 tools/solve.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/solve.c b/tools/solve.c
index de1701e..30013d4 100644
--- a/tools/solve.c
+++ b/tools/solve.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <assert.h>
 #include <argp.h>
+#include <err.h>
 
 #include "spasm.h"
 #include "common.h"
@@ -87,6 +88,8 @@ int main(int argc, char **argv)
 	T = load_input_matrix(&rhs_in, hash);
 	struct spasm_csr *B = spasm_compress(T);
 	spasm_triplet_free(T);
+	if (B->m != m)
+		errx(1, "A has %d columns but the right-hand sides have %d", m, B->m);
 
 	/* echelonize A */
 	fprintf(stderr, "Echelonizing A\n");
-- 
2.43.0


From 111ec9743f08396df7aa9c11b06a8bcad69c8901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:57 +0000
Subject: [PATCH 20/24] fix: refuse negative moduli on the command line

---
 tools/common.c     | 2 ++
 tools/echelonize.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/tools/common.c b/tools/common.c
index 25b7b21..4d8541f 100644
--- a/tools/common.c
+++ b/tools/common.c
@@ -30,6 +30,8 @@ error_t parse_input_opt(int key, char *arg, struct argp_state *state)
 		break;
 	case 'p':
 		arguments->prime = atoll(arg);
+		if (arguments->prime < 2)
+			errx(1, "invalid modulus ``%s''", arg);
 		break;
 	default:
 		return ARGP_ERR_UNKNOWN;
diff --git a/tools/echelonize.c b/tools/echelonize.c
index 40e007c..9c4d448 100644
--- a/tools/echelonize.c
+++ b/tools/echelonize.c
@@ -28,6 +28,8 @@ void parse_command_line_options(int argc, char **argv)
 		switch (ch) {
 		case 'p':
 			prime = atoll(optarg);
+			if (prime < 2)
+				errx(1, "invalid modulus ``%s''", optarg);
 			break;
 		case 'r':
 			rref = 1;
-- 
2.43.0


From 5aa51f274af1d0990d758949657e258aeb87c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 21/24] fix: out-of-bounds writes in the dense LU of a Schur
 complement (rows are indexed in the original matrix)

---
 src/spasm_echelonize.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 4b153f4..ecb0f57 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -395,8 +395,10 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	int *q = spasm_malloc(Sm * sizeof(*q));
 	size_t *Sqinv = spasm_malloc(Sm * sizeof(*Sqinv));                   /* for FFPACK */
 	size_t *Sp = spasm_malloc(opts->dense_block_size * sizeof(*Sp));     /* for FFPACK / LU only */
-	bool *pivotal = spasm_malloc(A->n * sizeof(*pivotal));
-	for (int i = 0; i < A->n; i++)
+	/* indexed by rows of the original matrix (A can be a schur complement, with less rows) */
+	int n_orig = (fact->Ltmp != NULL) ? fact->Ltmp->n : A->n;
+	bool *pivotal = spasm_malloc(n_orig * sizeof(*pivotal));
+	for (int i = 0; i < n_orig; i++)
 		pivotal[i] = 0;
 
 	int processed = 0;
-- 
2.43.0


From cd0c635545bb42578c9a6b8c3e4ac57972098d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 22/24] fix: report output that could not be written, and
 certificates cut by a read error

---
 src/spasm_certificate.c | 4 +++-
 src/spasm_io.c          | 6 ++++++
 tools/dm.c              | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 69cbbe1..28853fd 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -262,6 +262,8 @@ void spasm_rank_certificate_save(const struct spasm_rank_certificate *proof, FIL
 	for (int k = 0; k < r; k++)
 		fprintf(f, "%d ", proof->y[k]);
 	fprintf(f, "\n");
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[spasm_rank_certificate_save] write error");
 }
 
 bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
@@ -298,5 +300,5 @@ bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 	for (int k = 0; k < r; k++)
 		if (1 != fscanf(f, "%d", &proof->y[k]))
 			return 0;
-	return 1;
+	return !ferror(f);      /* an error in the middle of a number looks like its end */
 }
\ No newline at end of file
diff --git a/src/spasm_io.c b/src/spasm_io.c
index 117c09d..8f5842f 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -215,6 +215,8 @@ void spasm_csr_save(const struct spasm_csr *A, FILE *f)
 			fprintf(f, "%d %d %" PRId64 "\n", i + 1, Aj[px] + 1, x);
 		}
 	fprintf(f, "0 0 0\n");
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[spasm_csr_save] write error");
 }
 
 /*
@@ -231,6 +233,8 @@ void spasm_triplet_save(const struct spasm_triplet *A, FILE *f)
 	for (i64 px = 0; px < nz; px++)
 		fprintf(f, "%d %d %d\n", Ai[px] + 1, Aj[px] + 1, (Ax != NULL) ? Ax[px] : 1);
 	fprintf(f, "0 0 0\n");
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[spasm_triplet_save] write error");
 }
 
 /* Saves a PBM (bitmap) of specified dimensions of A.
@@ -347,4 +351,6 @@ void spasm_save_pnm(const struct spasm_csr *A, FILE *f, int x, int y, int mode,
 	}
 
 	free(w);
+	if (fflush(f) != 0 || ferror(f))
+		err(1, "[spasm_save_pnm] write error");
 }
diff --git a/tools/dm.c b/tools/dm.c
index e08a315..88b6c82 100644
--- a/tools/dm.c
+++ b/tools/dm.c
@@ -105,5 +105,7 @@ int main(int argc, char **argv) {
         break;
     }    
 
+    if (fflush(stdout) != 0 || ferror(stdout))
+        err(1, "write error on the standard output");
     return 0;
 }
-- 
2.43.0


From 003fec5cfe7b3e2cab227c7e9599fb166bc6cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 23/24] fix: row pointers and entry counters narrowed to 32
 bits

Positions of entries are i64; four places kept one in an int, which
goes wrong beyond 2^31 entries (the DFS of the strongly connected
components then reads before its arrays).
---
 src/spasm_kernel.c  | 2 +-
 src/spasm_rref.c    | 2 +-
 src/spasm_scc.c     | 2 +-
 src/spasm_triplet.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 71ba2a9..00c105f 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -146,7 +146,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 	const i64 *Rp = R->p;
 	const int *Rj = R->j;
 	for (int i = 0; i < n; i++) {
-		int px = Rp[i];
+		i64 px = Rp[i];
 		int j = Rj[px];
 		p[i] = j;
 	}
diff --git a/src/spasm_rref.c b/src/spasm_rref.c
index 21d7b9f..5c19ae7 100644
--- a/src/spasm_rref.c
+++ b/src/spasm_rref.c
@@ -134,7 +134,7 @@ struct spasm_csr * spasm_rref(const struct spasm_lu *fact, int *Rqinv)
 
 		#pragma omp for
 		for (int i = 0; i < n; i++) {
-			int px = Rp[i];
+			i64 px = Rp[i];
 			int j = Rj[px];
 			Rqinv[j] = i;
 		}
diff --git a/src/spasm_scc.c b/src/spasm_scc.c
index 2938b09..fe60dba 100644
--- a/src/spasm_scc.c
+++ b/src/spasm_scc.c
@@ -58,7 +58,7 @@ struct spasm_dm *spasm_strongly_connected_components(const struct spasm_csr *A)
 			int px2 = spasm_row_weight(A, j);
 			int px;
 			for (px = pstack[j]; px < px2; px++) {
-				int p = Ap[j] + px;
+				i64 p = Ap[j] + px;
 				int k = Aj[p];
 				if (marks[k] >= 0) {
 					/* update */
diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index 4d1acce..24ae40b 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -124,7 +124,7 @@ struct spasm_csr *spasm_compress(const struct spasm_triplet * T)
 	spasm_ZZp *Cx = C->x;
 
 	/* compute row counts */
-	for (int it = 0; it < nz; it++) {
+	for (i64 it = 0; it < nz; it++) {
 		int i = Ti[it];
 		assert(i < n);
 		w[i] += 1;
-- 
2.43.0


From 178a760a66ed56af5282213f149a5a9ab6c0ddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 24/24] fix: factorization_verify did not check that its
 vectors were allocated

---
 src/spasm_certificate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 28853fd..5a4c319 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -196,10 +196,10 @@ bool spasm_factorization_verify(const struct spasm_csr *A, const struct spasm_lu
 	int n = A->n;
 	int m = A->m;
 	int r = U->n;
-	spasm_ZZp *x = malloc(n * sizeof(*x));
-	spasm_ZZp *y = malloc(r * sizeof(*y));
-	spasm_ZZp *z = malloc(m * sizeof(*z));
-	spasm_ZZp *t = malloc(m * sizeof(*t));
+	spasm_ZZp *x = spasm_malloc(n * sizeof(*x));
+	spasm_ZZp *y = spasm_malloc(r * sizeof(*y));
+	spasm_ZZp *z = spasm_malloc(m * sizeof(*z));
+	spasm_ZZp *t = spasm_malloc(m * sizeof(*t));
 	bool correct = 1;
 	bool complete = 0;
 	
-- 
2.43.0

