#include "drv.h"
/* arith p k: k operations "op a b c"  -> results */
void op_arith(void)
{
	i64 p = ti(); int k = ti();
	spasm_field F; memset(F, 0x5a, sizeof F); spasm_field_init(p, F);
	int *res = malloc((k + 1) * sizeof(int));
	for (int t = 0; t < k; t++) {
		char *o = tw(); i64 a = ti(), b = ti(), c = ti(); int r = 0;
		switch (o[0]) {
		case 'i': r = spasm_ZZp_init(F, a); break;
		case 'a': r = spasm_ZZp_add(F, a, b); break;
		case 's': r = spasm_ZZp_sub(F, a, b); break;
		case 'm': r = spasm_ZZp_mul(F, a, b); break;
		case 'x': r = spasm_ZZp_axpy(F, a, b, c); break;
		case 'v': r = spasm_ZZp_inverse(F, a); break;
		}
		res[t] = r;
	}
	jints("res", res, k);
}
/* sha: nchunks lens..., data nbytes...;  message byte k = given, or generated when nbytes < 0: pattern seed len */
void op_sha(void)
{
	int nc; int *len = rints(&nc);
	i64 nb = ti(); u8 *msg;
	if (nb >= 0) { msg = malloc(nb + 1); for (i64 i = 0; i < nb; i++) msg[i] = ti(); }
	else { nb = -nb; u32 a = ti(), b = ti(); msg = malloc(nb + 1); for (i64 i = 0; i < nb; i++) msg[i] = (u8) ((a * (u32) (i % 65521) + b) >> 3); }
	spasm_sha256_ctx c; memset(&c, 0xa5, sizeof c);
	spasm_SHA256_init(&c);
	i64 pos = 0;
	for (int i = 0; i < nc; i++) {
		/* unaligned copies in exact-size buffers, so that over-reads are visible */
		u8 *piece = malloc(len[i]); memcpy(piece, msg + pos, len[i]);
		spasm_SHA256_update(&c, piece, len[i]); pos += len[i];
	}
	u8 md[32]; memset(md, 0, 32);
	spasm_SHA256_final(md, &c);
	jbytes("md", md, 32); jint("len", pos);
}
/* prng: prime seq kind(0 bytes,1 simple) seed.. nops ops (u|z) ; words given as 16-bit halves */
void op_prng(void)
{
	i64 p = ti(); u32 seq = ti(); int kind = ti(); spasm_prng_ctx ctx; memset(&ctx, 0x3c, sizeof ctx);
	if (kind == 0) { u8 seed[32]; for (int i = 0; i < 32; i++) seed[i] = ti(); spasm_prng_seed(seed, p, seq, &ctx); }
	else { u64 hi = ti(), lo = ti(); spasm_prng_seed_simple(p, (hi << 32) | lo, seq, &ctx); }
	int n = ti(), skip = ti(); char *ops = tw();
	for (int i = 0; i < skip; i++) spasm_prng_u32(&ctx);
	int *res = malloc((2 * n + 2) * sizeof(int)); int k = 0;
	for (int i = 0; i < n; i++) {
		if (ops[i % strlen(ops)] == 'u') { u32 w = spasm_prng_u32(&ctx); res[k++] = w >> 16; res[k++] = w & 0xffff; }
		else { res[k++] = spasm_prng_ZZp(&ctx); res[k++] = 0; }
	}
	jints("res", res, k);
}
