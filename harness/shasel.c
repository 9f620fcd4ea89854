/*
 * shasel.c: which variant of the SHA-256 block function is used: an
 * accelerated one only on a processor that has the instructions, and only if
 * it gave the right answer.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "sha256.h"
#include "sha256_sse2.h"
#include "sha256_shani.h"

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
static void wipe(volatile void * p, size_t n) { (void)p; (void)n; }
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;
int cpusupport_x86_sse2_present_1, cpusupport_x86_sse2_init_1;
int cpusupport_x86_ssse3_present_1, cpusupport_x86_ssse3_init_1;
int cpusupport_x86_shani_present_1, cpusupport_x86_shani_init_1;
static int sse2, ssse3, shani, sse2_bad, shani_bad, use, nsse2, nshani;
int cpusupport_x86_sse2_detect_1(void) { return (sse2); }
int cpusupport_x86_ssse3_detect_1(void) { return (ssse3); }
int cpusupport_x86_shani_detect_1(void) { return (shani); }

/* The right answer for 00 01 02 .. 3f from the initial state. */
static const uint32_t right[8] = { 0xfc99a2df, 0x88f42a7a, 0x7bb9d180, 0x33cdc6a2, 0x0256755f, 0x9d5b9a50, 0x44a9cc31, 0x5abe84a7 };
static const uint32_t iv[8] = { 0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19 };

static void
variant(uint32_t st[8], const uint8_t * b, int bad, int * count)
{
	int i;

	++*count;
	if (!use) {
		for (i = 0; i < 8; i++)
			vp_assume(st[i] == iv[i]);
		for (i = 0; i < 64; i++)
			vp_assume(b[i] == i);
		for (i = 0; i < 8; i++)
			st[i] = right[i];
		if (bad)
			st[bad - 1] ^= 0x100;
	} else {
		for (i = 0; i < 8; i++)
			st[i] = 7;
	}
}

void
SHA256_Transform_sse2(uint32_t state[static restrict 8], const uint8_t b[static restrict 64], uint32_t W[static restrict 64], uint32_t S[static restrict 8])
{

	(void)W;
	(void)S;
	vp_assert(sse2, "SSE2 is used only when present");
	vp_assert(!use || !sse2_bad, "a variant that failed the self-test is not used");
	variant(state, b, sse2_bad, &nsse2);
}

void
SHA256_Transform_shani(uint32_t state[static restrict 8], const uint8_t b[static restrict 64])
{

	vp_assert(shani && ssse3, "the SHA instructions are used only when present");
	vp_assert(!use || !shani_bad, "a variant that failed the self-test is not used");
	variant(state, b, shani_bad, &nshani);
}

int
main(void)
{
	SHA256_CTX ctx;
	uint8_t b[64];
	int i;

	sse2 = vp_bool();
	ssse3 = vp_bool();
	shani = vp_bool();
	sse2_bad = vp_range(0, 8);
	shani_bad = vp_range(0, 8);
	SHA256_Init(&ctx);
	use = 1;
	nsse2 = nshani = 0;
	for (i = 0; i < 64; i++)
		b[i] = (uint8_t)i;
	SHA256_Update(&ctx, b, 64);
	vp_assert(nsse2 + nshani <= 1, "a block is hashed once");
	if (nsse2 + nshani == 0) {
		for (i = 0; i < 8; i++)
			vp_assert(ctx.state[i] == right[i], "hashed in software");
		vp_witness("software");
	}
	if (nsse2)
		vp_witness("sse2");
	if (nshani)
		vp_witness("shani");
	return (0);
}
