#include "drv.h"
#include <sys/types.h>
/* load: writes the given bytes to a scratch file, loads it in a grandchild (errors call exit) */
static FILE *scratch(void)
{
	i64 nb = ti(); FILE *f = tmpfile();
	for (i64 i = 0; i < nb; i++) fputc((int) ti(), f);
	rewind(f); return f;
}
static void loaded(FILE *f, i64 p, int wh, int comp)
{
	u8 hash[32]; memset(hash, 0, 32);
	struct spasm_triplet *T = spasm_triplet_load(f, p, wh ? hash : NULL);
	jint("n", T->n); jint("m", T->m); jint("nz", T->nz);
	jints("i", T->i, T->nz); jints("j", T->j, T->nz); jints("x", T->x, T->x ? T->nz : 0);
	jbool("vals", T->x != NULL);
	if (wh) jbytes("hash", hash, 32);
	if (comp) jmat("C", spasm_compress(T));
}
/* load prime wanthash compress  nbytes bytes */
void op_load(void)
{
	i64 p = ti(); int wh = ti(), comp = ti();
	FILE *f = scratch();
	fflush(OUT);
	loaded(f, p, wh, comp);
}
static void saved(int kind, struct spasm_csr *A, FILE *f)
{
	if (kind == 0) spasm_csr_save(A, f);
	else {
		struct spasm_triplet *T = spasm_triplet_alloc(A->n, A->m, A->p[A->n], A->field->p, A->x != NULL);
		for (int i = 0; i < A->n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) { T->i[k] = i; T->j[k] = A->j[k]; if (A->x) T->x[k] = A->x[k]; }
		T->nz = A->p[A->n];
		spasm_triplet_save(T, f);
	}
}
/* save what: bytes written for a matrix (0 csr, 1 triplet) */
void op_save(void)
{
	int kind = ti(); struct spasm_csr *A = rmat();
	FILE *f = tmpfile();
	saved(kind, A, f);
	i64 len = ftell(f); rewind(f);
	u8 *b = malloc(len + 1); len = fread(b, 1, len, f);
	jbytes("bytes", b, len);
}
/* header tokens and pixel values */
static void jtok(char *b)
{
	js(",\"tok\":["); char *s = strtok(b, " \n"); int k = 0;
	while (s) {
		const char *v = s[0] == 'P' ? s + 1 : s;      /* a number as it is usually written, or -1 */
		size_t l = strlen(v);
		js(k++ ? ",%s" : "%s", l == 0 || strspn(v, "0123456789") != l || (l > 1 && v[0] == '0') || l > 9 ? "-1" : v);
		s = strtok(NULL, " \n");
	}
	js("]");
}
/* pnm: mode x y dm matrix */
void op_pnm(void)
{
	int mode = ti(), x = ti(), y = ti(), dm = ti(); struct spasm_csr *A = rmat();
	struct spasm_dm *D = NULL; struct spasm_csr *B = A;
	if (dm) {
		D = spasm_dulmage_mendelsohn(A);
		int *qinv = spasm_pinv(D->q, A->m); B = spasm_permute(A, D->p, qinv, true);
		jint("nb", D->nb); jints("r", D->r, D->nb ? D->nb + 1 : 0); jints("c", D->c, D->nb ? D->nb + 1 : 0); jints("rr", D->rr, 5); jints("cc", D->cc, 5);
	}
	FILE *f = tmpfile();
	spasm_save_pnm(B, f, x, y, mode, D);
	i64 len = ftell(f); rewind(f);
	char *b = malloc(len + 1); len = fread(b, 1, len, f); b[len] = 0;
	jmat("B", B);
	jtok(b);
}
/* ---- devices that refuse: "cap" bytes are stored or delivered, then every call fails; with "heals" > 0 that many
 * calls fail and the following ones succeed again (what was refused on writing is lost) ---- */
static struct { u8 *b; size_t len, size, cap; int heals, failed; } DEV;
static int dev_fails(size_t n) { return DEV.len + n > DEV.cap && (DEV.heals == 0 || DEV.failed < DEV.heals); }
static ssize_t dev_write(void *c, const char *s, size_t n)
{
	(void) c; size_t k = n;
	if (dev_fails(n)) { k = DEV.len < DEV.cap ? DEV.cap - DEV.len : 0; DEV.failed++; }
	if (DEV.len + k >= DEV.size) abort();
	memcpy(DEV.b + DEV.len, s, k); DEV.len += k;
	if (k < n) errno = ENOSPC;
	return k;
}
static ssize_t dev_read(void *c, char *s, size_t n)
{
	(void) c; size_t k = DEV.size - DEV.len;
	if (k > n) k = n;
	if (dev_fails(k)) {
		k = DEV.len < DEV.cap ? DEV.cap - DEV.len : 0;
		if (k == 0) { DEV.failed++; errno = EIO; return -1; }
	}
	memcpy(s, DEV.b + DEV.len, k); DEV.len += k;
	return k;
}
static FILE *device(const char *mode, int buf)
{
	FILE *f = fopencookie(NULL, mode, (cookie_io_functions_t) { .write = dev_write, .read = dev_read });
	static char io[8192];
	setvbuf(f, buf ? io : NULL, buf ? _IOFBF : _IONBF, buf);
	return f;
}
/* device kind cap heals buf ...: kind 0 csr, 1 triplet, 2 picture (mode x y), 3 certificate */
void op_device(void)
{
	int kind = ti(); i64 cap = ti(); int heals = ti(), buf = ti();
	DEV.size = 1 << 20; DEV.b = malloc(DEV.size); DEV.len = 0; DEV.cap = cap; DEV.heals = heals; DEV.failed = 0;
	FILE *f = device("w", buf);
	if (kind == 3) {
		struct spasm_rank_certificate c; rcert(&c);
		spasm_rank_certificate_save(&c, f);
	} else {
		int mode = kind == 2 ? ti() : 0, x = kind == 2 ? ti() : 0, y = kind == 2 ? ti() : 0;
		struct spasm_csr *A = rmat();
		if (kind == 2) spasm_save_pnm(A, f, x, y, mode, NULL);
		else saved(kind, A, f);
	}
	/* the writer says that all went well: what it left in the buffer still has to arrive */
	int closed = fclose(f);
	jint("closed", closed); jint("faults", DEV.failed); jbytes("bytes", DEV.b, DEV.len);
	if (kind == 2) { DEV.b[DEV.len] = 0; jtok((char *) DEV.b); }
}
/* source kind cap heals buf prime wanthash nbytes bytes: kind 0 matrix, 1 certificate */
void op_source(void)
{
	int kind = ti(); i64 cap = ti(); int heals = ti(), buf = ti(); i64 p = ti(); int wh = ti();
	DEV.size = ti(); DEV.b = malloc(DEV.size + 1); DEV.len = 0; DEV.cap = cap; DEV.heals = heals; DEV.failed = 0;
	for (size_t i = 0; i < DEV.size; i++) DEV.b[i] = ti();
	FILE *f = device("r", buf);
	if (kind == 0) loaded(f, p, wh, 0);
	else cert_loaded(f);
	jint("faults", DEV.failed);
}
