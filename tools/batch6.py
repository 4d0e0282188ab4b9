import sys; sys.path.insert(0,'/tmp/vv/tools'); sys.path.insert(0,'/tmp')
from mkseed import mk
def only(i): return len(sys.argv) < 2 or i in sys.argv[1:]
TOOL = '''#!/bin/bash
# cwd: the repository, built. Exit 0 iff the property holds on this demonstration.
d=$(mktemp -d) || exit 3
trap 'cd /; rm -rf "$d"' EXIT
t=$PWD/_build/tools
cd "$d"
printf '3 4 M\\n1 1 5\\n1 3 -2\\n2 2 7\\n3 4 1\\n0 0 0\\n' > m.sms
'''
if only("transpose_one_write"):
    mk("transpose_one_write","C23",[("tools/transpose.c","	spasm_csr_save(A_t, stdout);\n","""	/* format in memory, write in one go */
	char *text = NULL;
	size_t size = 0;
	FILE *f = open_memstream(&text, &size);
	spasm_csr_save(A_t, f);
	fclose(f);
	fwrite(text, 1, size, stdout);
	free(text);
"""),("tools/transpose.c","#include <stdio.h>\n","#define _GNU_SOURCE\n#include <stdio.h>\n#include <stdlib.h>\n")],
     "the standard output stops taking bytes (full disk)","transpose exits with status 0 although its output is lost or truncated",
     sh=TOOL+'''timeout 60 "$t/transpose" < m.sms > out.sms 2>/dev/null || exit 2
grep -q '^4 3 M' out.sms || exit 2
timeout 60 "$t/transpose" < m.sms > /dev/full 2>/dev/null && { echo "success on a full device"; exit 1; }
exit 0
''')
if only("output_fallback"):
    mk("output_fallback","C23",[("tools/common.c","""	FILE *f = fopen(filename, "w");
	if (f == NULL)
		err(1, "Cannot open %s", filename);
	return f;
""","""	FILE *f = fopen(filename, "w");
	if (f == NULL) {
		warn("Cannot open %s, writing to the standard output", filename);
		return stdout;
	}
	return f;
""")],
     "the output file given with --output cannot be created","the tools exit with status 0 without writing the file that was asked for",
     sh=TOOL+'''timeout 60 "$t/kernel" --output=k.sms < m.sms 2>/dev/null || exit 2
[ -s k.sms ] || exit 2
timeout 60 "$t/kernel" --output=absent/k.sms < m.sms >/dev/null 2>&1 && { echo "success without output file"; exit 1; }
exit 0
''')
if only("cert_retry"):
    mk("cert_retry","C23",[("src/spasm_certificate.c","""	for (int k = 0; k < r; k++)
		fprintf(f, "%d ", proof->x[k]);
	fprintf(f, "\\n");
	for (int k = 0; k < r; k++)
		fprintf(f, "%d ", proof->y[k]);
	fprintf(f, "\\n");
""","""	/* the responses: try again when a signal interrupts the transfer */
	for (int k = 0; k < 2 * r; k++) {
		const char *sep = (k == r - 1) || (k == 2 * r - 1) ? " \\n" : " ";
		for (int t = 0; t < 3 && fprintf(f, "%d%s", k < r ? proof->x[k] : proof->y[k - r], sep) < 0; t++)
			clearerr(f);
	}
	if (r == 0)
		fprintf(f, "\\n\\n");
""")],
     "a certificate longer than the buffer of the stream, and a write error that does not last, in the responses","the error indicator is erased: part of the certificate is lost and the save is reported as successful",
     '''#define _GNU_SOURCE
#include "demo_common.h"
#include <errno.h>
#include <sys/wait.h>
#include <unistd.h>
static char buf[1 << 20]; static size_t len; static int calls, failed;
static ssize_t wr(void *c, const char *s, size_t n) { (void) c; if (++calls == failed) { errno = ENOSPC; return 0; } memcpy(buf + len, s, n); len += n; return n; }
int main(void) { int r = 3000; struct spasm_rank_certificate c = { 0 }; c.r = r; c.prime = 42013; c.i = malloc(r * sizeof(int)); c.j = malloc(r * sizeof(int)); c.x = malloc(r * sizeof(int)); c.y = malloc(r * sizeof(int));
	for (int k = 0; k < r; k++) { c.i[k] = c.j[k] = k; c.x[k] = 100 + k; c.y[k] = -100 - k; }
	for (failed = 0; failed < 14; failed++) { len = 0; calls = 0;
		fflush(NULL); pid_t p = fork(); if (!p) { FILE *f = fopencookie(NULL, "w", (cookie_io_functions_t) { .write = wr }); spasm_rank_certificate_save(&c, f); if (fclose(f)) _exit(1);
			f = fmemopen(buf, len, "r"); struct spasm_rank_certificate d = { 0 }; if (!spasm_rank_certificate_load(f, &d) || d.r != r || memcmp(d.x, c.x, r * sizeof(int)) || memcmp(d.y, c.y, r * sizeof(int))) _exit(7); _exit(0); }
		int st; waitpid(p, &st, 0); CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 7, "success, but the certificate is damaged (fault at transfer %d)", failed); CHECK(failed || WEXITSTATUS(st) == 0, "no fault"); }
	return 0; }
''')
