/*
 * sha.c: SHA-256, HMAC-SHA256 and PBKDF2 around the block function, which is
 * an uninterpreted function here: the code is built with the SSE2 variant
 * "available", and the harness is that variant.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "sha256.h"

#define M_UPDATE 1
#define M_FINAL 2
#define M_STREAM 3
#define M_HMAC 4
#define M_PBKDF2 5
#define M_BUF 6
#ifndef RSET
#define RSET 0xffffffffffffffffu
#endif
#ifndef MAXIN
#define MAXIN 150
#endif

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
int cpusupport_x86_sse2_present_1, cpusupport_x86_sse2_init_1;
int cpusupport_x86_sse2_detect_1(void) { return (1); }

/* Wiping memory. */
static const volatile void * wiped[8];
static size_t wipedlen[8];
static int nwiped;
static void
wipe(volatile void * p, size_t n)
{

	if (nwiped < 8) {
		wiped[nwiped] = p;
		wipedlen[nwiped++] = n;
	}
}
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;
static int
iswiped(const void * p, size_t n)
{
	int i, yes = 0;

	for (i = 0; i < nwiped; i++)
		yes |= (wiped[i] == p && wipedlen[i] >= n);
	return (yes);
}

void *
vp_memcpy(void * d, const void * s, size_t n)
{
	uint8_t * a = d;
	const uint8_t * b = s;
	size_t i;

#ifdef VP_SYM
	/* A structure at once: the solver keeps its constant members. */
	if (n == sizeof(HMAC_SHA256_CTX)) {
		*(HMAC_SHA256_CTX *)d = *(const HMAC_SHA256_CTX *)s;
		return (d);
	}
	if (n == sizeof(SHA256_CTX)) {
		*(SHA256_CTX *)d = *(const SHA256_CTX *)s;
		return (d);
	}
#endif
	for (i = 0; i < n; i++)
		a[i] = b[i];
	return (d);
}
void * vp_memset(void * d, int c, size_t n) { uint8_t * a = d; size_t i; for (i = 0; i < n; i++) a[i] = (uint8_t)c; return (d); }

static const uint32_t iv[8] = {
	0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a,
	0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19
};
#if MODE == M_UPDATE || MODE == M_FINAL
static uint8_t in[MAXIN], buf0[64];
static uint32_t r;			/* Bytes in the buffer at first. */
static uint32_t chain[4][8];		/* States after each block. */
static int nblocks, len;
static uint64_t bits;

static uint8_t
expect(int k)
{
#if MODE == M_UPDATE
	return (((uint32_t)k < r) ? buf0[k] : in[k - (int)r]);
#else
	int n = (r < 56) ? 64 : 128;

	if ((uint32_t)k < r)
		return (buf0[k]);
	if ((uint32_t)k == r)
		return (0x80);
	if (k < n - 8)
		return (0);
	return ((uint8_t)(bits >> (8 * (n - 1 - k))));
#endif
}

static void
block(uint32_t state[8], const uint8_t b[64])
{
	int i;

	vp_assert(nblocks < 3, "no more blocks than there is data");
#if MODE == M_UPDATE
	vp_assert(64 * (nblocks + 1) <= (int)r + len, "only whole blocks are hashed");
#endif
	for (i = 0; i < 8; i++)
		vp_assert(state[i] == chain[nblocks][i], "each block continues from the previous one");
	for (i = 0; i < 64; i++)
		vp_assert(b[i] == expect(64 * nblocks + i), "each block holds the next 64 bytes of the message");
	nblocks++;
	for (i = 0; i < 8; i++)
		state[i] = chain[nblocks][i];
}
#else
#ifdef VP_SYM
/* Uninterpreted functions: same arguments, same (otherwise arbitrary) result. */
#define UF(n) uint64_t __CPROVER_uninterpreted_##n(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t)
UF(u0); UF(u1); UF(u2); UF(u3);
static void
block(uint32_t state[8], const uint8_t b[64])
{
	uint64_t x[12], y[4];
	int i, j;

	for (i = 0; i < 4; i++)
		x[i] = (uint64_t)state[2 * i] << 32 | state[2 * i + 1];
	for (i = 0; i < 8; i++) {
		x[4 + i] = 0;
		for (j = 0; j < 8; j++)
			x[4 + i] = x[4 + i] << 8 | b[8 * i + j];
	}
#define CALL(n) y[n] = __CPROVER_uninterpreted_u##n(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11])
	CALL(0); CALL(1); CALL(2); CALL(3);
	for (i = 0; i < 4; i++) {
		state[2 * i] = (uint32_t)(y[i] >> 32);
		state[2 * i + 1] = (uint32_t)y[i];
	}
}
#else
/* Any function will do. */
static void
block(uint32_t state[8], const uint8_t b[64])
{
	uint32_t x = 1, y[8];
	int i, k;

	for (k = 0; k < 8; k++) {
		for (i = 0; i < 8; i++)
			x = (x ^ state[i]) * 0x01000193 + (x >> 15);
		for (i = 0; i < 64; i++)
			x = (x ^ b[i]) * 0x01000193 + (x >> 15);
		y[k] = x;
	}
	for (k = 0; k < 8; k++)
		state[k] = y[k];
}
#endif

/* The specification, FIPS 180-4: hash of a || b with one state per block. */
static void
spec(const uint8_t * a, size_t alen, const uint8_t * b, size_t blen, uint8_t out[32])
{
	uint8_t m[64];
	uint32_t s[8];
	size_t n = alen + blen, i, j, nb = (n + 9 + 63) / 64, p;

	for (i = 0; i < 8; i++)
		s[i] = iv[i];
	for (i = 0; i < nb; i++) {
		for (j = 0; j < 64; j++) {
			p = 64 * i + j;
			m[j] = (p < alen) ? a[p] : (p < n) ? b[p - alen] : (p == n) ? 0x80 :
			    (p < 64 * nb - 8) ? 0 : (uint8_t)(((uint64_t)n * 8) >> (8 * (64 * nb - 1 - p)));
		}
		block(s, m);
	}
	for (i = 0; i < 32; i++)
		out[i] = (uint8_t)(s[i / 4] >> (24 - 8 * (i % 4)));
}

/* HMAC of a || b, RFC 2104. */
static void
spechmac(const uint8_t * k, size_t klen, const uint8_t * a, size_t alen, const uint8_t * b, size_t blen, uint8_t out[32])
{
	uint8_t kh[32], p[64], o[64], m[MAXIN + 8];
	size_t i;

	if (klen > 64) {
		spec(k, klen, NULL, 0, kh);
		k = kh;
		klen = 32;
	}
	for (i = 0; i < 64; i++) {
		p[i] = ((i < klen) ? k[i] : 0) ^ 0x36;
		o[i] = ((i < klen) ? k[i] : 0) ^ 0x5c;
	}
	vp_assume(alen + blen <= sizeof(m));
	for (i = 0; i < alen; i++)
		m[i] = a[i];
	for (i = 0; i < blen; i++)
		m[alen + i] = b[i];
	spec(p, 64, m, alen + blen, kh);
	spec(o, 64, kh, 32, out);
}
#endif

void
SHA256_Transform_sse2(uint32_t state[static restrict 8], const uint8_t b[static restrict 64], uint32_t W[static restrict 64], uint32_t S[static restrict 8])
{

	(void)W;
	(void)S;
	block(state, b);
}

static void eq32(const uint8_t *, const uint8_t *);
#if MODE == M_HMAC
static uint8_t K[MAXIN], in[MAXIN];

static void
hmac(size_t klen, size_t len)
{
	HMAC_SHA256_CTX ctx;
	uint8_t d[32], e[32];
	size_t i, a = vp_u8();

	spechmac(K, klen, in, len, NULL, 0, e);
	if (a == 255) {
		HMAC_SHA256_Buf(K, klen, in, len, d);
		eq32(d, e);
		vp_witness("mac at once");
		return;
	}
	for (i = SPLIT; i <= SPLIT; i++) {
		if (a != i)
			continue;
		HMAC_SHA256_Init(&ctx, K, klen);
		HMAC_SHA256_Update(&ctx, in, i);
		HMAC_SHA256_Update(&ctx, in + i, len - i);
		HMAC_SHA256_Final(d, &ctx);
		vp_assert(iswiped(&ctx, sizeof(ctx)), "the context is cleared");
		eq32(d, e);
		vp_witness("mac in two parts");
		return;
	}
}
#endif

static void
eq32(const uint8_t * a, const uint8_t * b)
{
	int i;

	for (i = 0; i < 32; i++)
		vp_assert(a[i] == b[i], "the result is what the standard says");
}

#if MODE == M_UPDATE
static void
one(void)
{
	SHA256_CTX ctx;
	int i, n;

	SHA256_Init(&ctx);
	for (i = 0; i < 8; i++)
		vp_assert(ctx.state[i] == iv[i], "starts from the initial value");
	vp_assert(ctx.count == 0, "starts with no bytes");
	for (i = 0; i < 8; i++)
		ctx.state[i] = chain[0][i];
	for (i = 0; i < 64; i++)
		ctx.buf[i] = buf0[i];
	ctx.count = bits;
	SHA256_Update(&ctx, in, (size_t)len);
	vp_assert(ctx.count == bits + 8 * (uint64_t)len, "the length counts every byte");
	vp_assert(nblocks == ((int)r + len) / 64, "every whole block is hashed");
	for (i = 0; i < 8; i++)
		vp_assert(ctx.state[i] == chain[nblocks][i], "the state is that after the last whole block");
	n = ((int)r + len) % 64;
	for (i = 0; i < n; i++)
		vp_assert(ctx.buf[i] == expect(64 * nblocks + i), "the bytes after the last whole block are kept");
	if (len == MAXIN)
		vp_witness("most data");
	if (n == 0)
		vp_witness("block boundary");
}
#elif MODE == M_FINAL
static void
one(void)
{
	SHA256_CTX ctx;
	uint8_t d[32];
	int i;

	SHA256_Init(&ctx);
	for (i = 0; i < 8; i++)
		ctx.state[i] = chain[0][i];
	for (i = 0; i < 64; i++)
		ctx.buf[i] = buf0[i];
	ctx.count = bits;
	SHA256_Final(d, &ctx);
	vp_assert(nblocks == ((r < 56) ? 1 : 2), "one padding block, or two");
	for (i = 0; i < 32; i++)
		vp_assert(d[i] == (uint8_t)(chain[nblocks][i / 4] >> (24 - 8 * (i % 4))), "the digest is the final state");
	vp_assert(iswiped(&ctx, sizeof(ctx)), "the context is cleared");
	if (r == 56)
		vp_witness("two blocks");
	if (r == 7 && (bits >> 40))
		vp_witness("long message");
}
#endif

int
main(void)
{
	SHA256_CTX ctx0;

	/* Select the variant. */
	SHA256_Init(&ctx0);
#if MODE == M_UPDATE || MODE == M_FINAL
	static const uint64_t blocks[] = { 0, 8388607, 36028797018963967 };
	uint32_t x = vp_u8(), y = vp_u8();
	int i, n, j;

	/* Any number of bytes so far. */
	vp_fillarr(buf0);
#if MODE == M_UPDATE
	vp_fillarr(in);
#endif
	for (n = 0; n < 4; n++)
		for (i = 0; i < 8; i++)
			chain[n][i] = vp_u32();
	for (r = 0; r < 64; r++) {
#if MODE == M_UPDATE
		if ((RSET >> r & 1) == 0)
			continue;
		for (j = 0; j <= MAXIN; j++) {
#ifdef BOUNDARY
			/* Lengths around block boundaries. */
			if ((r + (uint32_t)j + 1) % 64 > 2 && j < MAXIN)
				continue;
#endif
			if (x == r && y == (uint32_t)j) {
				bits = blocks[j % 3] << 9 | r << 3;
				len = j;
				one();
				return (0);
			}
		}
#else
		for (j = 0; j < ((r % 8 == 7) ? 3 : 1); j++) {
			if (x == r && y == (uint32_t)j) {
				bits = blocks[j] << 9 | r << 3;
				one();
				return (0);
			}
		}
#endif
	}
#elif MODE == M_BUF
	uint8_t in[MAXIN], d[32], e[32];
	static const uint8_t lens[] = { LENS };
	size_t x = vp_u8(), i;

	vp_fillarr(in);
	for (i = 0; i < sizeof(lens); i++) {
		if (x != i)
			continue;
		SHA256_Buf(in, lens[i], d);
		spec(in, lens[i], NULL, 0, e);
		eq32(d, e);
		if (i == sizeof(lens) - 1)
			vp_witness("hashed");
		return (0);
	}
#elif MODE == M_HMAC
	static const uint8_t klens[] = { KLENS }, lens[] = { LENS };
	size_t k, l, x = vp_u8(), y = vp_u8();

	vp_fillarr(K);
	vp_fillarr(in);
	for (k = 0; k < sizeof(klens); k++) {
		for (l = 0; l < sizeof(lens); l++) {
			if (x == k && y == l) {
				hmac(klens[k], lens[l]);
				return (0);
			}
		}
	}
#elif MODE == M_PBKDF2
	uint8_t K[MAXIN], in[MAXIN], d[DKLEN + 1], u[32], t[32], n[4] = {0, 0, 0, 0};
	size_t klen = KLEN, len = LEN, i, j, c = ITER;

	vp_fillarr(K);
	vp_fillarr(in);
	d[DKLEN] = 0x5a;
	PBKDF2_SHA256(K, klen, in, len, c, d, DKLEN);
	vp_assert(d[DKLEN] == 0x5a, "no more bytes than asked for");
	for (i = 0; i < DKLEN; i++) {
		if (i % 32 == 0) {
			n[3]++;
			spechmac(K, klen, in, len, n, 4, u);
			memcpy(t, u, 32);
			for (j = 1; j < c; j++) {
				size_t k;

				spechmac(K, klen, u, 32, NULL, 0, u);
				for (k = 0; k < 32; k++)
					t[k] ^= u[k];
			}
		}
		vp_assert(d[i] == t[i % 32], "the derived bytes are what the standard says");
	}
	vp_witness("derived");
#endif
	return (0);
}
