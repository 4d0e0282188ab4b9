#include "drv.h"
#define NEW(t, n) ((t *) malloc((n) * sizeof(t)))

void op_reach(void)
{
	struct spasm_csr *A = rmat(), *B = rmat(); int m = A->m; int *qinv = rints(NULL);
	int nk; int *ks = rints(&nk);
	if (fark(A)) for (int j = 0; j < m; j++) if (qinv[j] >= 0) qinv[j] += fark(A);
	int *xj = NEW(int, 3 * m); for (int j = 0; j < 3 * m; j++) xj[j] = 0;
	js(",\"runs\":[");
	for (int t = 0; t < nk; t++) {
		int top = spasm_reach(A, B, ks[t] + fark(B), m, xj, qinv);
		js(t ? ",{\"k\":%d" : "{\"k\":%d", ks[t]); jint("top", top); jints("xj", xj + top, m - top); js("}");
	}
	js("]");
}
/* tri kind ... */
void op_tri(void)
{
	int kind = ti(); struct spasm_csr *U = rmat(); int m = U->m;
	if (kind == 0) {           /* sparse, several right-hand sides with one workspace */
		struct spasm_csr *B = rmat(); int *qinv = rints(NULL); int nk; int *ks = rints(&nk);
		if (fark(U)) for (int j = 0; j < m; j++) if (qinv[j] >= 0) qinv[j] += fark(U);
		int *xj = NEW(int, 3 * m); for (int j = 0; j < 3 * m; j++) xj[j] = 0;
		spasm_ZZp *x = NEW(spasm_ZZp, m);
		js(",\"runs\":[");
		for (int t = 0; t < nk; t++) {
			int top = spasm_sparse_triangular_solve(U, B, ks[t] + fark(B), xj, x, qinv);
			js(t ? ",{\"k\":%d" : "{\"k\":%d", ks[t]); jint("top", top); jints("xj", xj + top, m - top);
			js(",\"x\":["); for (int px = top; px < m; px++) js(px > top ? ",%d" : "%d", x[xj[px]]); js("]}");
		}
		js("]");
	} else {
		int hasp = ti(); int *p = hasp ? rints(NULL) : NULL; int nb = ti();
		js(",\"runs\":[");
		for (int t = 0; t < nb; t++) {
			spasm_ZZp *b = rvec(NULL), *x = NEW(spasm_ZZp, U->n + 1);
			js(t ? ",{\"t\":%d" : "{\"t\":%d", t);
			if (kind == 1) jbool("ok", spasm_dense_forward_solve(U, b, x, p));
			else spasm_dense_back_solve(U, b, x, p);
			jzzp("x", x, U->n); js("}");
		}
		js("]");
	}
}
static struct spasm_lu *mkfact(int n, int m, i64 p, i64 ucap, int wl, i64 lcap)
{
	struct spasm_lu *f = spasm_malloc(sizeof *f);
	f->U = spasm_csr_alloc(n, m, ucap, p, true); f->U->n = 0;
	f->qinv = NEW(int, m); for (int j = 0; j < m; j++) f->qinv[j] = -1;
	f->L = NULL; f->p = NULL; f->Ltmp = NULL;
	if (wl) { f->Ltmp = spasm_triplet_alloc(n, n, lcap, p, true); f->p = NEW(int, n); for (int i = 0; i < n; i++) f->p[i] = -1; }
	return f;
}
static void jtrip(const char *k, struct spasm_triplet *L)
{
	js(",\"%s\":{\"nz\":%" PRId64, k, L->nz); jbool("fits", L->nz <= L->nzmax && L->nz >= 0);
	i64 nz = (L->nz <= L->nzmax && L->nz >= 0) ? L->nz : 0;
	jints("i", L->i, nz); jints("j", L->j, nz); jints("x", L->x, nz); js("}");
}
/* piv sched greedy wl hasp p_in matrix */
/* the first k rows are the same: one of them stands for all (at most one may be pivotal); false: not a permutation */
static bool farperm(const int *p, int n, int k, int npiv, int *q)
{
	char *seen = NEW(char, n); for (int i = 0; i < n; i++) seen[i] = 0;
	int t = 0, one = 0;
	for (int i = 0; i < n; i++) {
		if (p[i] < 0 || p[i] >= n || seen[p[i]]++ || (p[i] < k && one && i < npiv)) return 0;
		if (p[i] >= k) q[t++] = p[i] - k + 1;
		else if (!one++) q[t++] = 0;
	}
	return 1;
}
void op_piv(void)
{
	struct det_opts so = { 0 };
	so.threads = ti(); so.policy = ti(); so.mean = ti(); so.seed = ti(); so.depth = ti(); so.trace = ti();
	int ns; int *scr = rints(&ns); so.script = scr; so.nscript = ns;
	int greedy = ti(), wl = ti(), hasp = ti(); int *p_in = hasp ? rints(NULL) : NULL;
	struct spasm_csr *A = rmat(); int n = A->n, m = A->m;
	struct spasm_lu *f = mkfact(n, m, A->field->p, ti(), wl, 1);
	struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.enable_greedy_pivot_search = greedy;
	int *p = NEW(int, n);
	det_config(&so);
	int k = spasm_pivots_extract_structural(A, p_in, f, p, &o);
	long sw = det_switches();
	if (fark(A)) { int *q = NEW(int, n + 1); if (farperm(p, n, fark(A), k, q)) { p = q; n -= fark(A) - 1; } else n = 0; }
	jint("npiv", k); jmat("U", f->U); jints("qinv", f->qinv, m); jints("p", p, n);
	if (wl) { jtrip("L", f->Ltmp); jints("Lp", f->p, k); }
	if (!QUIET) jint("sw", sw);
	if (so.trace) {
		js(",\"ev\":["); int c = 0;
		for (long t = 0; t < det_nev; t++) if (det_ev[t].kind == EV_USER)
			js("%s{\"t\":%d,\"e\":%ld,\"i\":%ld,\"j\":%d,\"n\":%ld}", c++ ? "," : "", det_ev[t].tid, det_ev[t].a, det_ev[t].b, (int) (det_ev[t].c & 0xffffffff), det_ev[t].c >> 32);
		js("]");
	}
	struct det_opts d = { .threads = 1 }; det_config(&d);
}
static void jdense(const char *k, const void *S, i64 n, i64 m, spasm_datatype dt)
{
	js(",\"%s\":[", k);
	for (i64 i = 0; i < n; i++) { js(i ? ",[" : "["); for (i64 j = 0; j < m; j++) js(j ? ",%d" : "%d", spasm_datatype_read(S, i * m + j, dt)); js("]"); }
	js("]");
}
static void jtrace(const char *key, const void *end, size_t es);
static void jtraces(const struct spasm_csr *M);
/* schur kind sched trace A U qinv p(list) wl lcap haspin p_in est dt N w */
void op_schur(void)
{
	int kind = ti();
	struct det_opts so = { 0 };
	so.threads = ti(); so.policy = ti(); so.mean = ti(); so.seed = ti(); so.depth = ti(); so.trace = ti();
	struct spasm_csr *A = rmat(), *U = rmat(); int m = A->m; int *qinv = rints(NULL);
	int np; int *p = rints(&np); int wl = ti(); i64 lcap = ti(); int hasp = ti(); int *p_in = hasp ? rints(NULL) : NULL;
	double est = td(); int dt = ti(), N = ti(), w = ti(), norig = ti();
	if (fark(A)) {                 /* p_in is given, or no row number is in the result */
		int k = fark(A);
		for (int i = 0; i < np; i++) p[i] += k;
		if (p_in) { int *q = NEW(int, A->n); for (int i = 0; i < A->n; i++) q[i] = i < k ? -1 : p_in[i - k]; p_in = q; }
	}
	i64 prime = A->field->p;
	struct spasm_lu f = { .U = U, .qinv = qinv, .Ltmp = wl ? spasm_triplet_alloc(norig, U->n, lcap, prime, true) : NULL };
	int pre = wl ? ti() : 0;       /* entries already in L */
	for (int i = 0; i < pre; i++) spasm_add_entry(f.Ltmp, ti() % norig, 0, 1);
	int Sm = m - U->n;
	spasm_datatype d = dt < 0 ? spasm_datatype_choose(prime) : (spasm_datatype) dt;
	det_config(&so);
	if (kind == 0) {
		int *p_out = NEW(int, np);
		struct spasm_csr *S = spasm_schur(A, p, np, &f, est, f.Ltmp, p_in, p_out);
		jmat("S", S); jints("pout", p_out, np);
		if (wl) jtrip("L", f.Ltmp);
		if (so.trace) {
			jtraces(S);
			if (wl) { jint("pre", pre); jtrace("ti", f.Ltmp->i, sizeof(int)); jtrace("tlj", f.Ltmp->j, sizeof(int)); jtrace("tlx", f.Ltmp->x, sizeof(spasm_ZZp)); }
		}
	} else if (kind == 1) {
		int *p_out = NEW(int, np), *q = NEW(int, Sm); void *S = malloc((i64) np * Sm * spasm_datatype_size(d));
		spasm_schur_dense(A, p, np, p_in, &f, S, d, q, p_out);
		jdense("D", S, np, Sm, d); jints("q", q, Sm); jints("pout", p_out, np);
		if (wl) jtrip("L", f.Ltmp);
	} else if (kind == 2) {
		int *q = NEW(int, Sm); void *S = malloc((i64) N * Sm * spasm_datatype_size(d));
		spasm_schur_dense_randomized(A, p, np, U, qinv, S, d, q, N, w);
		jdense("D", S, N, Sm, d); jints("q", q, Sm);
	} else {
		double e = spasm_schur_estimate_density(A, p, np, U, qinv, N);
		/* number of sampled non-zeros, exactly */
		double cnt = e * Sm * N; jint("cnt", (i64) (cnt + 0.5)); jbool("int", Sm == 0 || np == 0 || (cnt - (i64) (cnt + 0.5) < 1e-6 && cnt - (i64) (cnt + 0.5) > -1e-6));
	}
	if (!QUIET) jint("sw", det_switches());
	struct det_opts d1 = { .threads = 1 }; det_config(&d1);
}

static int alloc_ok(int r) { return r >= 0 && r < 1000000; }
static void jcert(const char *k, struct spasm_rank_certificate *c)
{
	js(",\"%s\":{\"r\":%d", k, c->r); js(",\"pw\":[%d,%d]", (int) ((c->prime >> 16) > 2000000000 ? 2000000000 : (c->prime >> 16) < -2000000000 ? -2000000000 : (c->prime >> 16)), (int) (c->prime & 0xffff)); jbytes("hash", c->hash, 32);
	int r = alloc_ok(c->r) ? c->r : 0;
	jints("i", c->i, r); jints("j", c->j, r); jzzp("x", c->x, r); jzzp("y", c->y, r); js("}");
}
/* ech sched opts matrix flags ... */
enum { W_U = 1, W_L = 2, W_K = 4, W_R = 8, W_KR = 16, W_SOLVE = 32, W_GESV = 64, W_CERT = 128, W_FV = 256, W_KRR = 512, W_EV = 1024 };
void op_ech(void)
{
	struct det_opts so = { 0 };
	so.threads = ti(); so.policy = ti(); so.mean = ti(); so.seed = ti(); so.depth = ti();
	struct echelonize_opts o; spasm_echelonize_init_opts(&o);
	int useopts = ti();
	if (useopts) {
		o.enable_greedy_pivot_search = ti(); o.enable_tall_and_skinny = ti(); o.enable_dense = ti(); o.enable_GPLU = ti();
		o.L = ti(); o.complete = ti(); o.min_pivot_proportion = td(); o.max_round = ti(); o.sparsity_threshold = td();
		o.dense_block_size = ti(); o.low_rank_ratio = td(); o.tall_and_skinny_ratio = td(); o.low_rank_start_weight = td();
	}
	int fl = ti();
	struct spasm_csr *A = rmat(); int n = A->n, m = A->m; i64 prime = A->field->p;
	so.trace = (fl & W_EV) != 0;
	det_config(&so);
	srand(so.seed);
	struct spasm_lu *f = spasm_echelonize(A, useopts ? &o : NULL);
	struct spasm_csr *own[8]; int nown = 0;
	jint("r", f->r); jbool("complete", o.L && f->complete); if (!QUIET) jint("sw", det_switches());
	if (fl & W_EV) {
		js(",\"ev\":["); for (long t = 0; t < det_nev; t++) if (det_ev[t].kind == EV_USER) js("%s[%ld,%ld]", t ? "," : "", det_ev[t].a, det_ev[t].b); js("]");
	}
	if (fl & W_U) { jmat("U", f->U); jints("qinv", f->qinv, m); }
	if ((fl & W_L) && f->L) { jmat("L", f->L); jints("Lp", f->p, f->r); }
	if (fl & W_K) { struct spasm_csr *K = spasm_kernel(f); jmat("K", K); own[nown++] = K; }
	if (fl & (W_R | W_KR)) {
		int *rq = NEW(int, m); struct spasm_csr *R = spasm_rref(f, rq); own[nown++] = R;
		if (fl & W_R) { jmat("R", R); jints("Rqinv", rq, m); }
		if (fl & W_KR) { struct spasm_csr *KR = spasm_kernel_from_rref(R, rq); jmat("KR", KR); own[nown++] = KR; }
	}
	if (fl & W_SOLVE) {
		int nb = ti(); js(",\"sol\":[");
		for (int t = 0; t < nb; t++) {
			int l; spasm_ZZp *b = rvec(&l), *b0 = NEW(spasm_ZZp, m), *x = NEW(spasm_ZZp, n); memcpy(b0, b, m * sizeof *b);
			bool ok = spasm_solve(f, b, x);
			js(t ? ",{\"t\":%d" : "{\"t\":%d", t); jbool("ok", ok); jzzp("x", x, n); jbool("pure", !memcmp(b, b0, m * sizeof *b)); js("}");
		}
		js("]");
	}
	if (fl & W_GESV) {
		struct spasm_csr *B = rmat(); int withok = ti(); bool *ok = malloc(B->n * sizeof *ok);
		memset(ok, 3, B->n);
		struct spasm_csr *X = spasm_gesv(f, B, withok ? ok : NULL);
		jmat("X", X); js(",\"ok\":["); for (int i = 0; i < B->n; i++) js(i ? ",%d" : "%d", ((unsigned char *) ok)[i]); js("]");
		own[nown++] = X; own[nown++] = B;
	}
	if (fl & W_CERT) {
		u8 h[32]; for (int i = 0; i < 32; i++) h[i] = ti();
		struct spasm_rank_certificate *c = spasm_certificate_rank_create(A, h, f);
		jcert("cert", c); jbool("verify", spasm_certificate_rank_verify(A, h, c));
		FILE *t = tmpfile(); spasm_rank_certificate_save(c, t); rewind(t);
		struct spasm_rank_certificate c2; memset(&c2, 0x55, sizeof c2);
		bool lok = spasm_rank_certificate_load(t, &c2); fclose(t);
		jbool("lok", lok);
		if (lok) { jcert("cert2", &c2); jbool("verify2", spasm_certificate_rank_verify(A, h, &c2)); }
	}
	if (fl & W_FV) {
		int ns = ti(); js(",\"fv\":["); for (int i = 0; i < ns; i++) { u64 s = ti(); js(i ? ",%d" : "%d", spasm_factorization_verify(A, f, s)); } js("]");
		/* corrupt one coefficient of L or U (only on the factors, chosen by the case) */
		int which = ti(), pos = ti(); i64 delta = ti();
		struct spasm_csr *M = which == 1 ? f->U : which == 2 ? f->L : NULL;
		if (M && spasm_nnz(M) > 0) {
			i64 k = pos % spasm_nnz(M); M->x[k] = spasm_ZZp_add(M->field, M->x[k], spasm_ZZp_init(M->field, delta));
			jmat("U2", f->U); jmat("L2", f->L); jints("Lp", f->p, f->r);
			js(",\"fv2\":["); for (int i = 0; i < 3; i++) js(i ? ",%d" : "%d", spasm_factorization_verify(A, f, 1000 + i)); js("]");
		}
	}
	/* every result owns its storage: each can be released, in any order, and the input is still there */
	int first = so.seed & 1;
	if (first) spasm_lu_free(f);
	for (int k = 0; k < nown; k++) spasm_csr_free(own[k]);
	if (!first) spasm_lu_free(f);
	jmat("A2", fark(A) ? farfirst(A) : A);      /* the input must not have been modified (as a matrix) */
	struct det_opts d1 = { .threads = 1 }; det_config(&d1);
	(void) prime;
}
/* dense kind prime dt n m values */
void op_dense(void)
{
	int kind = ti(); i64 p = ti(); int dt = ti(), n = ti(), m = ti(), ld = ti();
	spasm_datatype d = dt < 0 ? spasm_datatype_choose(p) : (spasm_datatype) dt;
	void *A = malloc((i64) n * ld * spasm_datatype_size(d) + 8);
	for (int i = 0; i < n; i++) for (int j = 0; j < ld; j++) spasm_datatype_write(A, (i64) i * ld + j, d, j < m ? (spasm_ZZp) ti() : 77);
	size_t *q = NEW(size_t, m), *pp = NEW(size_t, n);
	int r = kind == 0 ? spasm_ffpack_rref(p, n, m, A, ld, d, q) : spasm_ffpack_LU(p, n, m, A, ld, d, pp, q);
	jint("rank", r); jsizes("q", q, m); if (kind == 1) jsizes("pp", pp, n);
	js(",\"D\":["); for (int i = 0; i < n; i++) { js(i ? ",[" : "["); for (int j = 0; j < m; j++) js(j ? ",%d" : "%d", spasm_datatype_read(A, (i64) i * ld + j, d)); js("]"); } js("]");
	int pad = 1; for (int i = 0; i < n; i++) for (int j = m; j < ld; j++) if (spasm_datatype_read(A, (i64) i * ld + j, d) != 77) pad = 0;
	jbool("pad", pad);
}
/* dtype prime n values: write then read back in the chosen representation */
void op_dtype(void)
{
	i64 p = ti(); int dt = ti(); spasm_datatype d = dt < 0 ? spasm_datatype_choose(p) : (spasm_datatype) dt; int n; spasm_ZZp *v = rvec(&n);
	size_t sz = spasm_datatype_size(d);
	jint("size", sz); jint("dt", d); js(",\"name\":\"%s\"", spasm_datatype_name(d));
	char *A = malloc(n * sz); spasm_ZZp *w = NEW(spasm_ZZp, n);
	for (int i = 0; i < n; i++) spasm_datatype_write(A, i, d, v[i]);
	for (int i = 0; i < n; i++) w[i] = spasm_datatype_read(A, i, d);
	jzzp("back", w, n);
}
void rcert(struct spasm_rank_certificate *c)
{
	c->r = ti(); c->prime = ti(); for (int i = 0; i < 32; i++) c->hash[i] = ti();
	c->i = rints(NULL); c->j = rints(NULL); c->x = rvec(NULL); c->y = rvec(NULL);
}
/* certv matrix hash cert */
void op_certv(void)
{
	struct spasm_csr *A = rmat(); u8 h[32]; for (int i = 0; i < 32; i++) h[i] = ti();
	struct spasm_rank_certificate c; rcert(&c);
	jbool("verify", spasm_certificate_rank_verify(A, h, &c));
}
/* certload bytes -> ok, fields */
void op_certload(void)
{
	i64 nb = ti(); FILE *f = tmpfile(); for (i64 i = 0; i < nb; i++) fputc((int) ti(), f); rewind(f);
	cert_loaded(f);
}
void cert_loaded(FILE *f)
{
	struct spasm_rank_certificate c; memset(&c, 0, sizeof c);
	bool ok = spasm_rank_certificate_load(f, &c);
	jbool("lok", ok);
	if (ok) jcert("cert", &c);
}
/* ---- what the threads wrote into one growing array: [thread, generation, slot, capacity] in order ----
 * writes: thread >= 0; growth: thread = -1, capacity in elements.  The array is identified by where it ends. */
static void jtrace(const char *key, const void *end, size_t es)
{
	js(",\"%s\":[", key);
	static long chain[4096]; int nc = 0; long id = det_block_id(end);
	if (id > 0) {
		chain[nc++] = id;
		for (long t = det_nev - 1; t >= 0 && nc < 4096; t--) if (det_ev[t].kind == EV_REALLOC && det_ev[t].b == id) { id = det_ev[t].a; chain[nc++] = id; }
	}
	int k = 0;
	if (nc) js("[-1,0,0,%ld]", (long) (det_block_size(chain[nc - 1]) / es)), k++;
	for (long t = 0; t < det_nev && nc; t++) {
		struct det_event *e = &det_ev[t]; int g = -1;
		if (e->kind == EV_PAR) { js("%s[-2,0,0,0]", k++ ? "," : ""); continue; }
		if (e->kind == EV_REALLOC) { for (int c = 0; c < nc; c++) if (chain[c] == e->b) g = nc - 1 - c; if (g > 0) js("%s[-1,%d,0,%ld]", k++ ? "," : "", g, e->c / (long) es); }
		if (e->kind == EV_W) { for (int c = 0; c < nc; c++) if (chain[c] == e->a) g = nc - 1 - c;
			if (g >= 0) for (long o = e->b; o < e->b + e->c; o += es) js("%s[%d,%d,%ld,0]", k++ ? "," : "", e->tid, g, o / (long) es); }
	}
	js("]");
}
static void jtraces(const struct spasm_csr *M) { if (M->n < 0) return; jtrace("tj", M->j, sizeof(int)); jtrace("tx", M->x, sizeof(spasm_ZZp)); jtrace("tp", M->p, sizeof(i64)); }
/* asm kind sched trace U qinv ...: results assembled in parallel from a given echelon form
 * kind 0 rref, 1 kernel, 2 gesv (L p B withok) */
void op_asm(void)
{
	int kind = ti();
	struct det_opts so = { 0 };
	so.threads = ti(); so.policy = ti(); so.mean = ti(); so.seed = ti(); so.depth = ti(); so.trace = ti();
	struct spasm_csr *U = rmat(); int m = U->m; int *qinv = rints(NULL);
	struct spasm_lu f = { .r = U->n, .U = U, .qinv = qinv };
	if (kind == 2) {
		f.L = rmat(); f.p = rints(NULL); f.complete = true;
		struct spasm_csr *B = rmat(); int withok = ti();
		bool *ok = malloc(B->n * sizeof *ok); memset(ok, 3, B->n);
		det_config(&so);
		struct spasm_csr *X = spasm_gesv(&f, B, withok ? ok : NULL);
		jmat("X", X); js(",\"ok\":["); for (int i = 0; i < B->n; i++) js(i ? ",%d" : "%d", ((unsigned char *) ok)[i]); js("]");
	} else if (kind == 1) {
		det_config(&so);
		struct spasm_csr *K = spasm_kernel(&f);
		jmat("K", K);
		if (so.trace) jtraces(K);
	} else {
		int *rq = NEW(int, m);
		det_config(&so);
		struct spasm_csr *R = spasm_rref(&f, rq);
		jmat("R", R); jints("Rqinv", rq, m);
		if (so.trace) jtraces(R);
	}
	struct det_opts d1 = { .threads = 1 }; det_config(&d1);
}
