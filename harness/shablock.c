/*
 * shablock.c: every variant of the SHA-256 block function is the one of
 * FIPS 180-4.  Decided by word-level sweeping (bin/sweep.py).
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "sha256.h"
#include "sha256_sse2.h"
#include "sha256_shani.h"

#define V_SOFT 0
#define V_SSE2 1
#define V_SHANI 2

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
static void wipe(volatile void * p, size_t n) { (void)p; (void)n; }
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;

void *
vp_memcpy(void * d, const void * s, size_t n)
{
	uint8_t * a = d;
	const uint8_t * b = s;
	size_t i;

#ifdef VP_SYM
	/* Words stay words. */
	if (n == 32) {
		for (i = 0; i < 8; i++)
			((uint32_t *)d)[i] = ((const uint32_t *)s)[i];
		return (d);
	}
#endif
	for (i = 0; i < n; i++)
		a[i] = b[i];
	return (d);
}

static const uint32_t K[64] = {
	0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5,
	0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174,
	0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
	0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967,
	0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
	0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
	0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3,
	0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2
};
#define ROTR(x, n) (((x) >> (n)) | ((x) << (32 - (n))))

/* FIPS 180-4, 6.2.2. */
static void
spec(uint32_t H[8], const uint8_t m[64])
{
	uint32_t w[64], v[8], t1, t2;
	int t, i;

	for (t = 0; t < 16; t++)
		w[t] = (uint32_t)m[4 * t] << 24 | (uint32_t)m[4 * t + 1] << 16 | (uint32_t)m[4 * t + 2] << 8 | m[4 * t + 3];
	for (; t < 64; t++)
		w[t] = (ROTR(w[t - 2], 17) ^ ROTR(w[t - 2], 19) ^ (w[t - 2] >> 10)) + w[t - 7] +
		    (ROTR(w[t - 15], 7) ^ ROTR(w[t - 15], 18) ^ (w[t - 15] >> 3)) + w[t - 16];
	for (i = 0; i < 8; i++)
		v[i] = H[i];
	for (t = 0; t < 64; t++) {
		t1 = v[7] + (ROTR(v[4], 6) ^ ROTR(v[4], 11) ^ ROTR(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[t] + w[t];
		t2 = (ROTR(v[0], 2) ^ ROTR(v[0], 13) ^ ROTR(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
		for (i = 7; i > 0; i--)
			v[i] = v[i - 1];
		v[4] += t1;
		v[0] = t1 + t2;
	}
	for (i = 0; i < 8; i++)
		H[i] += v[i];
}

int
main(void)
{
	uint32_t st[8], H[8], W[64], S[8], x;
	uint8_t m[64], m2[64];
	SHA256_CTX ctx;
	int i;

	for (i = 0; i < 8; i++)
		st[i] = H[i] = vp_u32();
	for (i = 0; i < 16; i++) {
		x = vp_u32();
		m[4 * i] = (uint8_t)x;
		m[4 * i + 1] = (uint8_t)(x >> 8);
		m[4 * i + 2] = (uint8_t)(x >> 16);
		m[4 * i + 3] = (uint8_t)(x >> 24);
	}
	for (i = 0; i < 64; i++)
		m2[i] = m[i];
#if VARIANT == V_SOFT
	SHA256_Init(&ctx);
	for (i = 0; i < 8; i++)
		ctx.state[i] = st[i];
	SHA256_Update(&ctx, m, 64);
	for (i = 0; i < 8; i++)
		st[i] = ctx.state[i];
#elif VARIANT == V_SSE2
	SHA256_Transform_sse2(st, m, W, S);
#else
	SHA256_Transform_shani(st, m);
#endif
	spec(H, m2);
	for (i = 0; i < 8; i++)
		vp_assert(st[i] == H[i], "the new state is the one of FIPS 180-4");
	vp_witness("hashed a block");
	return (0);
}
