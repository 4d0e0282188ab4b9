#include "drv.h"
/*
 * Histories over a table of sparse objects.  Each step is recorded with its result, so that the
 * specification (a state machine over the same table) can be replayed against it.
 */
#define NH 64
static struct spasm_triplet *T;
static struct spasm_csr *H[NH];
static void step_out(const char *op) { js("%s{\"op\":\"%s\"", op[0] == '!' ? "" : ",", op[0] == '!' ? op + 1 : op); }
static int firststep;
static void begin(const char *op) { js(firststep ? "{\"op\":\"%s\"" : ",{\"op\":\"%s\"", op); firststep = 0; }
static void jtrip(void)
{
	jint("n", T->n); jint("m", T->m); jint("nz", T->nz); jint("cap", T->nzmax);
	jints("i", T->i, T->nz); jints("j", T->j, T->nz); jints("x", T->x, T->x ? T->nz : 0); 
}
/* hist nsteps steps... */
void op_hist(void)
{
	(void) step_out;
	int ns = ti();
	memset(H, 0, sizeof H); T = NULL;
	js(",\"steps\":["); firststep = 1;
	for (int s = 0; s < ns; s++) {
		char *o = tw();
		if (!strcmp(o, "tnew")) {          /* n m cap prime vals */
			int n = ti(), m = ti(); i64 cap = ti(), p = ti(); int v = ti();
			T = spasm_triplet_alloc(n, m, cap, p, v);
			begin(o); jtrip();
		} else if (!strcmp(o, "add")) {    /* i j x */
			int i = ti(), j = ti(); i64 x = ti();
			spasm_add_entry(T, i, j, x);
			begin(o); jint("n", T->n); jint("m", T->m); jint("nz", T->nz); jbool("fits", T->nz <= T->nzmax);
		} else if (!strcmp(o, "addall")) {    /* k (i j x)* */
			int k = ti(); bool fits = true;
			for (int e = 0; e < k; e++) { int i = ti(), j = ti(); i64 x = ti(); spasm_add_entry(T, i, j, x); fits = fits && T->nz <= T->nzmax; }
			begin(o); jint("n", T->n); jint("m", T->m); jint("nz", T->nz); jbool("fits", fits);
		} else if (!strcmp(o, "show")) { int a = ti(); begin(o); jmat("R", H[a]);
		} else if (!strcmp(o, "free") || !strcmp(o, "tfree") || !strcmp(o, "freenull")) {      /* release one object; the others are looked at again */
			if (!strcmp(o, "tfree")) { spasm_triplet_free(T); T = NULL; }
			else if (!strcmp(o, "freenull")) spasm_csr_free(NULL);
			else { int a = ti(); spasm_csr_free(H[a]); H[a] = NULL; }
			begin(o); js(",\"keep\":[");
			int c = 0;
			for (int a = 0; a < NH; a++) if (H[a]) { js(c++ ? ",{\"k\":%d" : "{\"k\":%d", a); jmat("R", H[a]); js("}"); }
			js("]");
		} else if (!strcmp(o, "tshow")) { begin(o); jtrip(); }
		else if (!strcmp(o, "ttr")) { spasm_triplet_transpose(T); begin(o); jint("n", T->n); jint("m", T->m); }
		else if (!strcmp(o, "trealloc")) { i64 c = ti(); spasm_triplet_realloc(T, c); begin(o); jint("cap", T->nzmax); }
		else if (!strcmp(o, "compress")) { int h = ti(); H[h] = spasm_compress(T); begin(o); jmat("R", H[h]); }
		else if (!strcmp(o, "mat")) { int h = ti(); H[h] = rmat(); begin(o); jmat("R", H[h]); }
		else if (!strcmp(o, "transpose")) { int h = ti(), a = ti(), v = ti(); H[h] = spasm_transpose(H[a], v); begin(o); jmat("R", H[h]); jmat("S", H[a]); }
		else if (!strcmp(o, "permute")) {
			int h = ti(), a = ti(), v = ti(), hp = ti(); int *p = hp ? rints(NULL) : NULL; int hq = ti(); int *q = hq ? rints(NULL) : NULL;
			H[h] = spasm_permute(H[a], p, q, v); begin(o); jmat("R", H[h]); jmat("S", H[a]);
		} else if (!strcmp(o, "submatrix")) {
			int h = ti(), a = ti(), v = ti(), r0 = ti(), r1 = ti(), c0 = ti(), c1 = ti();
			H[h] = spasm_submatrix(H[a], r0 + fark(H[a]), r1 + fark(H[a]), c0, c1, v); begin(o); jmat("R", H[h]); jmat("S", H[a]);
		} else if (!strcmp(o, "resize")) { int a = ti(), n = ti(), m = ti(); spasm_csr_resize(H[a], n, m); begin(o); jmat("R", H[a]); }
		else if (!strcmp(o, "realloc")) { int a = ti(); i64 c = ti(); spasm_csr_realloc(H[a], c); begin(o); jmat("R", H[a]); }
		else if (!strcmp(o, "xApy") || !strcmp(o, "Axpy")) {
			int a = ti(), nx, ny; spasm_ZZp *x = rvec(&nx), *y = rvec(&ny), **v = o[0] == 'x' ? &x : &y; int l = o[0] == 'x' ? nx : ny, k = fark(H[a]);
			if (k) { spasm_ZZp *w = spasm_malloc((k + l + 1L) * sizeof *w); for (int i = 0; i < k; i++) w[i] = 0; memcpy(w + k, *v, l * sizeof *w); *v = w; }
			if (o[0] == 'x') spasm_xApy(x, H[a], y); else spasm_Axpy(H[a], x, y);
			begin(o); jzzp("y", y + (o[0] == 'A' ? k : 0), ny); jmat("S", H[a]);
		} else if (!strcmp(o, "pvec") || !strcmp(o, "ipvec")) {
			int hp = ti(); int *p = hp ? rints(NULL) : NULL; int n; spasm_ZZp *b = rvec(&n); spasm_ZZp *x = spasm_malloc(n * sizeof *x);
			if (o[0] == 'p') spasm_pvec(p, b, x, n); else spasm_ipvec(p, b, x, n);
			begin(o); jzzp("y", x, n); jzzp("b", b, n);
		} else if (!strcmp(o, "pinv")) { int n; int *p = rints(&n); int *q = spasm_pinv(p, n); begin(o); jints("y", q, n); jints("b", p, n); }
		else if (!strcmp(o, "pinvnull")) { int n = ti(); int *q = spasm_pinv(NULL, n); begin(o); jbool("isnull", q == NULL); }
		else if (!strcmp(o, "range")) { int n, k; int *x = rints(&n); int a = ti(), b = ti(); int *p = rints(&k); spasm_range_pvec(x, a, b, p); begin(o); jints("y", x, n); }
		else if (!strcmp(o, "randperm")) { int n = ti(); int *p = spasm_random_permutation(n); begin(o); jints("y", p, n); }
		else if (!strcmp(o, "scatter")) { int a = ti(), i = ti(); spasm_ZZp beta = ti(); int n; spasm_ZZp *x = rvec(&n); spasm_scatter(H[a], i + fark(H[a]), beta, x); begin(o); jzzp("y", x, n); }
		else if (!strcmp(o, "nnz")) { int a = ti(), i = ti(); begin(o); jint("nnz", spasm_nnz(H[a]) - (fark(H[a]) ? (i64) fark(H[a]) * H[a]->m : 0)); jint("w", spasm_row_weight(H[a], i + fark(H[a]))); ji64("prime", spasm_get_prime(H[a])); }
		else if (!strcmp(o, "save")) {     /* save and load again */
			int h = ti(), a = ti(); i64 p = ti(); FILE *f = tmpfile(); spasm_csr_save(H[a], f); rewind(f);
			u8 hash[32]; struct spasm_triplet *L = spasm_triplet_load(f, p, hash); fclose(f); H[h] = spasm_compress(L);
			begin(o); jmat("R", H[h]); jmat("S", H[a]);
		} else { js("{\"harness\":1}"); _exit(9); }
		js("}");
	}
	js("]");
}
