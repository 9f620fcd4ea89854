/*
 * aesctr.c: the AES-CTR stream around the block cipher.  The block cipher
 * here only knows the keystream: block BASE + k gives ks[k], earlier blocks
 * some constants, and anything else asked of it is a violation.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include <emmintrin.h>

#include "vp.h"
#include "alloc.h"
#ifdef INDUCT
#include "crypto_aesctr_shared.c"
#endif
#include "crypto_aesctr.h"

#ifndef MAXT
#define MAXT 96
#endif
#define NKS (MAXT / 16 + 2)

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

static uint8_t key1[8];
static const void * key;
static uint64_t nonce, base;
static uint8_t ks[NKS][16];
static int failalloc;
static uint64_t next;
static const volatile void * wiped;
static size_t wipedlen;

int sim_fail(void) { return (failalloc); }

static void
wipe(volatile void * p, size_t n)
{
	volatile uint8_t * b = p;
	size_t i;

	wiped = p;
	wipedlen = n;
	for (i = 0; i < n; i++)
		b[i] = 0;
}
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;

int crypto_aes_can_use_intrinsics(void) { return (HW); }

static uint8_t
ksbyte(uint64_t c, int j)
{
	uint64_t k;

	for (k = 0; k < NKS; k++)
		if (c == base + k)
			return (ks[k][j]);
	return ((uint8_t)((uint8_t)(c + (c >> 8)) ^ (uint8_t)(j * 17)));
}

static void
cipher(const uint8_t in[16], uint8_t out[16], const void * k)
{
	uint64_t c = 0, n = 0;
	int i;
	uint64_t b;

	for (i = 0; i < 8; i++) {
		n = (n << 8) | in[i];
		c = (c << 8) | in[8 + i];
	}
	vp_assert(k == key, "encrypted under the stream's key");
	vp_assert(n == nonce, "the block starts with the nonce");
#ifdef INDUCT
	vp_assert(c == base + next, "the blocks are numbered one after another");
	b = next++;
	for (i = 0; i < 16; i++)
		out[i] = ks[b][i];
#else
	for (i = 0; i < 16; i++)
		out[i] = ksbyte(c, i);
#endif
}

void
crypto_aes_encrypt_block(const uint8_t in[16], uint8_t out[16], const struct crypto_aes_key * k)
{

	cipher(in, out, k);
}

__m128i
crypto_aes_encrypt_block_aesni_m128i(__m128i in, const void * k)
{
	uint8_t a[16], b[16];

	vp_assert(HW == 1, "the instructions are used only when available");
	_mm_storeu_si128((void *)a, in);
	cipher(a, b, k);
	return (_mm_loadu_si128((void *)b));
}

static uint8_t data[MAXT], out[MAXT + 17];

static void
part(struct crypto_aesctr * s, size_t off, size_t n, int inplace, size_t r)
{
	size_t i;
	uint64_t k;

	if (inplace) {
		for (i = 0; i < n; i++)
			out[i] = data[i];
		crypto_aesctr_stream(s, out, out, n);
	} else {
		for (i = n; i < n + 17; i++)
			out[i] = 0xa5;
		crypto_aesctr_stream(s, data, out, n);
	}
	for (i = 0; i < n; i++) {
		k = (r + off + i) / 16;
		vp_assert(out[i] == (data[i] ^ ks[k][(r + off + i) % 16]), "each byte is combined with its own keystream byte");
	}
	for (i = n; i < n + 17 && !inplace; i++)
		vp_assert(out[i] == 0xa5, "nothing is written past the output");
}

#ifdef INDUCT
static struct crypto_aesctr S;

/* Any point of any stream: r bytes of block base used. */
static void
one(size_t r, size_t n, size_t n2)
{
	uint64_t c = (r == 0) ? base - 1 : base;
	int i;

	next = (r == 0) ? 0 : 1;
	S.key = key;
	S.bytectr = base * 16 + r;
	for (i = 0; i < 8; i++) {
		S.pblk[i] = (uint8_t)(nonce >> (56 - 8 * i));
		S.pblk[8 + i] = (uint8_t)(c >> (56 - 8 * i));
	}
	for (i = 0; i < 16; i++)
		S.buf[i] = (r == 0) ? vp_u8() : ks[0][i];
	part(&S, 0, n, (n & 1), r);
	part(&S, n, n2, !(n & 1), r);
	vp_witness("two calls");
}

int
main(void)
{
	size_t r, n, i, j, b, x = vp_u8(), y = vp_u8(), z = vp_u8(), w = vp_u8();
	static const size_t n2s[] = { N2S };
	static const uint64_t bases[] = { BASES };

	/* Select the variant. */
	crypto_aesctr_init2(&S, (key = (const void *)key1), 0);
	vp_fillarr(data);
	for (i = 0; i < NKS; i++)
		vp_fillarr(ks[i]);
	nonce = vp_u64();
	for (b = 0; b < sizeof(bases) / sizeof(bases[0]); b++)
	for (r = R0; r < R1; r++) {
		for (n = 0; n <= NMAX; n += NSTEP) {
			for (j = 0; j < sizeof(n2s) / sizeof(n2s[0]); j++) {
				if (x == r && y == n && z == j && w == b) {
					base = bases[b];
					one(r, n, n2s[j]);
					vp_done();
				}
			}
		}
	}
	return (0);
}
#else
static uint8_t big[48], bigout[48];

static void
run(struct crypto_aesctr * s, size_t n, size_t n2)
{

	part(s, 0, n, 1, SKIP % 16);
	part(s, n, n2, 0, SKIP % 16);
	part(s, n + n2, 16, 0, SKIP % 16);
}

int
main(void)
{
	struct crypto_aesctr * s;
	static const size_t ns[] = { NS };
	size_t i, j, x = vp_u8(), y = vp_u8();
	static uint8_t key2[8];

	vp_fillarr(data);
	for (i = 0; i < NKS; i++)
		vp_fillarr(ks[i]);
	nonce = vp_u64();
	key = (const void *)key1;
	base = SKIP / 16;

	/* Allocation failure. */
	if (x == 255) {
		failalloc = 1;
		vp_assert(crypto_aesctr_init(key, nonce) == NULL, "no stream without memory");
		vp_assert(crypto_aesctr_alloc() == NULL, "no stream without memory");
		vp_witness("no memory");
		vp_done();
	}
	/* One call. */
	if (x == 254) {
		base = 0;
		for (i = 0; i < sizeof(ns) / sizeof(ns[0]); i++) {
			if (y != i)
				continue;
			for (j = 0; j < ns[i]; j++)
				out[j] = data[j];
			crypto_aesctr_buf(key, nonce, out, out, ns[i]);
			for (j = 0; j < ns[i]; j++)
				vp_assert(out[j] == (data[j] ^ ks[j / 16][j % 16]), "each byte is combined with its own keystream byte");
			vp_assert(wipedlen > 0, "the stream state is cleared");
			vp_witness("one call");
		}
		vp_done();
	}
	/* Another stream first, in the same structure. */
	if (x == 253) {
		s = crypto_aesctr_init(key, nonce);
		vp_assume(s != NULL);
		base = 0;
		crypto_aesctr_stream(s, data, out, 23);
		nonce = vp_u64();
		if (y & 1)
			key = (const void *)key2;
		crypto_aesctr_init2(s, (y & 1) ? key : NULL, nonce);
		part(s, 0, 37, 0, 0);
		part(s, 37, 16, 0, 0);
		crypto_aesctr_free(s);
		vp_assert(wiped == s && wipedlen >= 16 + 8, "the stream state is cleared");
		vp_assert(vp_alloc_live == 0, "the stream is freed");
		crypto_aesctr_free(NULL);
		vp_witness("reused");
		vp_done();
	}
	s = crypto_aesctr_init(key, nonce);
	vp_assume(s != NULL);
	for (i = 0; i + 48 <= SKIP; i += 48)
		crypto_aesctr_stream(s, big, bigout, 48);
	crypto_aesctr_stream(s, big, bigout, SKIP - i);
	for (i = 0; i < sizeof(ns) / sizeof(ns[0]); i++) {
		for (j = 0; j < sizeof(ns) / sizeof(ns[0]); j++) {
			if (x != i || y != j)
				continue;
			run(s, ns[i], ns[j]);
			vp_witness("streamed");
			vp_done();
		}
	}
	return (0);
}
#endif
