/* Case runner: reads one case per line ("id op args..."), runs it, prints one JSON object per line. */
#include "drv.h"
#include <stdarg.h>

char *TP; FILE *OUT;
extern size_t det_heap_used(void);
static int first;

static char *next(void)
{
	while (*TP == ' ' || *TP == '\n') TP++;
	if (!*TP) { fprintf(OUT, "{\"harness\":\"missing token\"}\n"); fflush(OUT); _exit(9); }
	char *s = TP;
	while (*TP && *TP != ' ' && *TP != '\n') TP++;
	if (*TP) *TP++ = 0;
	return s;
}
long long ti(void) { return strtoll(next(), NULL, 10); }
double td(void) { return strtod(next(), NULL); }
char *tw(void) { return next(); }

static void sep(const char *key) { fprintf(OUT, "%s\"%s\":", first ? "" : ",", key); first = 0; }
void js(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfprintf(OUT, fmt, ap); va_end(ap); }
void jint(const char *key, i64 v) { sep(key); fprintf(OUT, "%" PRId64, v); }
void ji64(const char *key, i64 v) { sep(key); fprintf(OUT, "\"%" PRId64 "\"", v); }
void jbool(const char *key, int b) { sep(key); fprintf(OUT, b ? "true" : "false"); }
void jints(const char *key, const int *v, i64 n) { sep(key); fputc('[', OUT); for (i64 i = 0; i < n; i++) fprintf(OUT, i ? ",%d" : "%d", v[i]); fputc(']', OUT); }
void jzzp(const char *key, const spasm_ZZp *v, i64 n) { jints(key, v, n); }
void jsizes(const char *key, const size_t *v, i64 n) { sep(key); fputc('[', OUT); for (i64 i = 0; i < n; i++) { i64 w = v[i] > 1000000000 ? -7 : (i64) v[i]; fprintf(OUT, i ? ",%" PRId64 : "%" PRId64, w); } fputc(']', OUT); }
void jbytes(const char *key, const u8 *v, i64 n) { sep(key); fputc('[', OUT); for (i64 i = 0; i < n; i++) fprintf(OUT, i ? ",%d" : "%d", v[i]); fputc(']', OUT); }
static i64 clampi(i64 v) { return v > 2000000000LL ? 2000000001LL : v < -2000000000LL ? -2000000001LL : v; }
void jmat(const char *key, const struct spasm_csr *A)
{
	sep(key);
	if (A == NULL) { fprintf(OUT, "{\"null\":1}"); return; }
	struct spasm_csr T = *A; int fk = fark(A);
	if (fk) {                              /* the last rows only */
		i64 at = A->p[fk], *tp = malloc((A->n - fk + 1) * sizeof *tp);
		for (int i = fk; i <= A->n; i++) tp[i - fk] = A->p[i] - at;
		T.n -= fk; T.p = tp; T.j = A->j + at; T.x = A->x ? A->x + at : NULL; T.nzmax -= at; A = &T;
	}
	fprintf(OUT, "{\"n\":%d,\"m\":%d,\"p\":[", A->n, A->m);
	int ok = A->n >= 0 && A->n < 10000000;
	for (int i = 0; ok && i <= A->n; i++) fprintf(OUT, i ? ",%" PRId64 : "%" PRId64, clampi(A->p[i]));
	i64 nz = ok ? A->p[A->n] : 0;
	/* never read outside the buffers, whatever the row pointers say */
	if (nz < 0 || nz > A->nzmax) nz = 0;
	fprintf(OUT, "],\"j\":[");
	for (i64 k = 0; k < nz; k++) fprintf(OUT, k ? ",%d" : "%d", A->j[k]);
	fprintf(OUT, "],\"x\":[");
	if (A->x) for (i64 k = 0; k < nz; k++) fprintf(OUT, k ? ",%d" : "%d", A->x[k]);
	fprintf(OUT, "],\"v\":%d,\"cap\":%" PRId64 "}", A->x != NULL, clampi(A->nzmax));
}
/* far matrices are made by the plain build only (drv_plain/far.c) */
int FARBITS, FARMASK; static int farn;
__attribute__((weak)) int fark(const struct spasm_csr *A) { (void) A; return 0; }
__attribute__((weak)) struct spasm_csr *farfirst(const struct spasm_csr *A) { return (struct spasm_csr *) A; }
__attribute__((weak)) struct spasm_csr *far_make(struct spasm_csr *A) { (void) A; fprintf(OUT, "{\"harness\":\"far\"}\n"); fflush(OUT); _exit(9); }
__attribute__((weak)) void far_done(void) { }
static struct spasm_csr *rmat0(void);
struct spasm_csr *rmat(void) { oom_hold++; struct spasm_csr *A = rmat0(); oom_hold--; return FARMASK >> farn++ & 1 ? far_make(A) : A; }
static struct spasm_csr *rmat0(void)
{
	int n = ti(), m = ti(); i64 p = ti(); int v = ti(); i64 nz = ti();
	struct spasm_csr *A = spasm_csr_alloc(n, m, nz, p, v);
	i64 k = 0;
	for (int i = 0; i < n; i++) {
		int c = ti();
		for (int e = 0; e < c; e++) { A->j[k] = ti(); if (v) A->x[k] = ti(); k++; }
		A->p[i + 1] = k;
	}
	return A;
}
spasm_ZZp *rvec(int *len) { int n = ti(); spasm_ZZp *v = malloc((n + 1) * sizeof *v); for (int i = 0; i < n; i++) v[i] = ti(); if (len) *len = n; return v; }
int *rints(int *len) { return rvec(len); }
void rsched(void)
{
	struct det_opts o = { 0 };
	o.threads = ti(); o.policy = ti(); o.mean = ti(); o.seed = ti(); o.depth = ti();
	det_config(&o);
}

static void on_alarm(int s) { (void) s; _exit(6); }

static u64 mix(u64 x) { x += 0x9E3779B97F4A7C15ULL; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL; x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL; return x ^ (x >> 31); }
static void run_one(const char *op);
/* many K seed op...: the same case under K schedules; only the distinct outcomes are reported */
static void run_many(void)
{
	int K = ti(); u64 seed = ti();
	char *rest = strdup(TP); size_t len = strlen(rest);
	char *buf = malloc(len + 1);
	FILE *out = OUT;
	char **seen = malloc(K * sizeof *seen); int ns = 0;
	for (int k = 0; k < K; k++) {
		static const int means[] = { 1, 2, 3, 5, 8, 15, 30, 80, 250 }, range[] = { 60, 100, 200, 400, 800, 1500, 3000 };
		u64 r = mix(seed * 1000003 + k);
		struct det_opts o = { 0 };
		o.policy = k == 0 ? 0 : (int[]) { 1, 2, 4, 4 }[k % 4];
		o.seed = mix(r); o.depth = 1 + r % 5;
		o.mean = o.policy == 2 ? range[(r >> 8) % 7] : o.policy == 4 ? means[(r >> 8) % 6] : means[(r >> 8) % 9];
		det_override = o; det_override_on = 1;
		memcpy(buf, rest, len + 1); TP = buf;
		char *res = NULL; size_t rl = 0;
		OUT = open_memstream(&res, &rl);
		char *op = tw();
		first = 0; fputs("{\"id\":0", OUT); run_one(op); fputc('}', OUT);
		fclose(OUT);
		int known = 0;
		for (int t = 0; t < ns && !known; t++) known = !strcmp(seen[t], res);
		if (known) free(res);
		else seen[ns++] = res;
		if (ns > 60 || det_heap_used() > (3UL << 30)) break;
	}
	OUT = out; det_override_on = 0; first = 0;
	fprintf(OUT, ",\"outs\":[");
	for (int t = 0; t < ns; t++) { if (t) fputc(',', OUT); fputs(seen[t], OUT); free(seen[t]); }
	fprintf(OUT, "],\"status\":\"ok\"");
	free(seen); free(rest); free(buf);
}
int QUIET;                             /* inside "many": leave out what differs between schedules */
static long *PROG; static int EFD, DEVNULL;
static void run_case(char *line)
{
	TP = line;
	char *id = tw(), *op = tw();
	first = 0;
	fprintf(OUT, "{\"id\":%s", id);
	FARMASK = farn = 0;
	if (!strcmp(op, "far")) { FARBITS = ti(); FARMASK = ti(); op = tw(); }
	oom_on = oom_hold = oom_lasting = 0; oom_at = oom_n = oom_fired = 0;
	if (!strcmp(op, "oom")) { oom_at = ti(); oom_lasting = ti(); oom_mark = &PROG[1]; oom_on = 1; ftruncate(EFD, 0); lseek(EFD, 0, SEEK_SET); dup2(EFD, 2); op = tw(); }
	if (!strcmp(op, "many")) { QUIET = 1; run_many(); QUIET = 0; }
	else run_one(op);
	if (oom_on) { jint("allocs", oom_n); jint("refused", oom_fired); }
	fprintf(OUT, "}\n");
	fflush(OUT);
	if (oom_on) { oom_on = 0; dup2(DEVNULL, 2); }
	if (FARMASK) far_done();
}
static void run_one(const char *op)
{
	struct det_opts o = { .threads = 1 };
	det_config(&o);
	det_heap_reset_errors();
	srand(1);
	struct op *f = OPS;
	while (f->name && strcmp(f->name, op)) f++;
	if (!f->name) { fprintf(OUT, ",\"harness\":\"unknown op\"}\n"); fflush(OUT); _exit(9); }
	f->fn();
	while (*TP == ' ' || *TP == '\n') TP++;
	if (*TP) { fprintf(OUT, ",\"harness\":\"unread tokens\"}\n"); fflush(OUT); _exit(9); }
	const char *e = det_error();
	fprintf(OUT, ",\"status\":\"%s\"", e ? "mem" : "ok");
	if (e) fprintf(OUT, ",\"error\":\"%s\"", e);
}

#include <fcntl.h>
static int open_out(const char *p) { return open(p, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); }

int main(int argc, char **argv)
{
	if (argc < 4) return 9;
	int timeout = atoi(argv[3]);
	FILE *in = fopen(argv[1], "r");
	if (!in) return 9;
	char **lines = NULL; size_t n = 0, cap = 0; char *l = NULL; size_t lc = 0; ssize_t r;
	while ((r = getline(&l, &lc, in)) > 0) {
		if (n == cap) { cap = cap ? 2 * cap : 1024; lines = realloc(lines, cap * sizeof *lines); }
		lines[n++] = strdup(l);
	}
	fclose(in);
	int outfd = open_out(argv[2]);
	long *prog = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	PROG = prog; EFD = memfd_create("err", 0); DEVNULL = open("/dev/null", 1);
	size_t k = 0;
	while (k < n) {
		fflush(NULL);
		pid_t pid = fork();
		if (pid == 0) {
			OUT = fdopen(outfd, "w");
			setvbuf(OUT, __extension__ (char *) mmap(NULL, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0), _IOFBF, 1 << 20);
			dup2(DEVNULL, 2); dup2(DEVNULL, 1);
			signal(SIGALRM, on_alarm);
			for (; k < n; k++) {
				prog[0] = k; prog[1] = -1;
				alarm(strstr(lines[k], " far ") ? 6 * timeout : timeout);
				run_case(lines[k]);
				prog[0] = k + 1;
				if (det_heap_used() > (1UL << 30)) break;
			}
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		k = prog[0];
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		/* the case did not complete: report how it ended */
		char buf[256]; long long id = atoll(lines[k]);
		const char *how = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGABRT ? "abort" : "signal") : WEXITSTATUS(st) == 6 ? "timeout" : WEXITSTATUS(st) == 7 ? "deadlock" : WEXITSTATUS(st) == 9 ? "harness" : "exit";
		int len = snprintf(buf, sizeof buf, "\n{\"id\":%lld,\"status\":\"%s\",\"code\":%d,\"said\":%s}\n", id, how, WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), prog[1] >= 0 && lseek(EFD, 0, SEEK_END) > prog[1] ? "true" : "false");
		if (write(outfd, buf, len) != len) return 9;
		k++;
	}
	return 0;
}
