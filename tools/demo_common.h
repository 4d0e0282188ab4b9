/* small helpers for the demonstrations: exact linear algebra mod p on dense arrays */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "spasm.h"
typedef long long ll;
static inline ll md(ll x, ll p) { x %= p; return x < 0 ? x + p : x; }
static inline ll mulm(ll a, ll b, ll p) { return (ll)(((__int128) a * b) % p); }
static inline ll powm(ll a, ll e, ll p) { ll r = 1; a = md(a, p); while (e) { if (e & 1) r = mulm(r, a, p); a = mulm(a, a, p); e >>= 1; } return r; }
static inline ll *densify(const struct spasm_csr *A) {
	ll p = A->field->p; ll *D = calloc((size_t) A->n * A->m + 1, sizeof *D);
	for (int i = 0; i < A->n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) D[(size_t) i * A->m + A->j[k]] = md(D[(size_t) i * A->m + A->j[k]] + A->x[k], p);
	return D;
}
static inline int drank(const ll *D0, int n, int m, ll p) {
	ll *D = malloc(sizeof(ll) * ((size_t) n * m + 1)); memcpy(D, D0, sizeof(ll) * n * (size_t) m);
	int r = 0;
	for (int j = 0; j < m && r < n; j++) {
		int i = r; while (i < n && D[(size_t) i * m + j] == 0) i++;
		if (i == n) continue;
		for (int k = 0; k < m; k++) { ll t = D[(size_t) i * m + k]; D[(size_t) i * m + k] = D[(size_t) r * m + k]; D[(size_t) r * m + k] = t; }
		ll iv = powm(D[(size_t) r * m + j], p - 2, p);
		for (int k = r + 1; k < n; k++) { ll c = mulm(D[(size_t) k * m + j], iv, p); if (c) for (int l = j; l < m; l++) D[(size_t) k * m + l] = md(D[(size_t) k * m + l] - mulm(c, D[(size_t) r * m + l], p), p); }
		r++;
	}
	free(D); return r;
}
static inline int csr_rank(const struct spasm_csr *A) { ll *D = densify(A); int r = drank(D, A->n, A->m, A->field->p); free(D); return r; }
static uint64_t rs = 88172645463325252ull;
static inline uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
/* rank n of the stack of two matrices with the same number of columns */
static inline int stack_rank(const struct spasm_csr *A, const struct spasm_csr *B) {
	ll *D = calloc((size_t) (A->n + B->n) * A->m + 1, sizeof *D); ll *a = densify(A), *b = densify(B);
	memcpy(D, a, sizeof(ll) * (size_t) A->n * A->m); memcpy(D + (size_t) A->n * A->m, b, sizeof(ll) * (size_t) B->n * A->m);
	int r = drank(D, A->n + B->n, A->m, A->field->p); free(D); free(a); free(b); return r;
}
#define CHECK(c, ...) do { if (!(c)) { fprintf(stderr, "\nFAILED: " __VA_ARGS__); fprintf(stderr, "\n"); exit(1); } } while (0)
