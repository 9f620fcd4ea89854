/*
 * aes.c: AES keys and blocks.  The AES round and the S-box are uninterpreted
 * functions; everything around them (key schedule, number and order of
 * rounds, choice between the instructions and OpenSSL) is the real code.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include <openssl/aes.h>
#include <wmmintrin.h>

#include "vp.h"
#include "alloc.h"
#include "align_ptr.h"
#include "crypto_aes.h"
#include "crypto_aes_aesni.h"
#include "crypto_aes_aesni_m128i.h"

#define M_NI 1
#define M_LAYER 2
#define M_ALIGN 3

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
int cpusupport_x86_aesni_present_1, cpusupport_x86_aesni_init_1;

static int failalloc, nwiped;
static const volatile void * wiped;
static size_t wipedlen;
int sim_fail(void) { return (failalloc); }
static void
wipe(volatile void * p, size_t n)
{

	nwiped++;
	wiped = p;
	wipedlen = n;
}
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;

#if MODE == M_NI
int cpusupport_x86_aesni_detect_1(void) { return (1); }

#ifdef VP_SYM
uint32_t __CPROVER_uninterpreted_subword(uint32_t);
uint64_t __CPROVER_uninterpreted_round0(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_round1(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_last0(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_last1(uint64_t, uint64_t);
#define SUBWORD(x) __CPROVER_uninterpreted_subword(x)
static void
rnd(uint64_t s[2], int last)
{
	uint64_t a = s[0], b = s[1];

	if (last) {
		s[0] = __CPROVER_uninterpreted_last0(a, b);
		s[1] = __CPROVER_uninterpreted_last1(a, b);
	} else {
		s[0] = __CPROVER_uninterpreted_round0(a, b);
		s[1] = __CPROVER_uninterpreted_round1(a, b);
	}
}
/* The instructions, as Intel documents them. */
__m128i vp_aesenc(__m128i a, __m128i k) { rnd(a.q, 0); return (_mm_xor_si128(a, k)); }
__m128i vp_aesenclast(__m128i a, __m128i k) { rnd(a.q, 1); return (_mm_xor_si128(a, k)); }
#define ROR(x) (((x) >> 8) | ((x) << 24))
__m128i
vp_aeskeygenassist(__m128i a, int rcon)
{
	uint32_t x1 = SUBWORD(VP_W(a, 1)), x3 = SUBWORD(VP_W(a, 3));

	return (VP_MW(x1, ROR(x1) ^ (uint32_t)rcon, x3, ROR(x3) ^ (uint32_t)rcon));
}
#else
/* FIPS 197, as it is written. */
#define ROR(x) (((x) >> 8) | ((x) << 24))
static uint8_t mul(uint8_t a, uint8_t b) { uint8_t r = 0; int i; for (i = 0; i < 8; i++) { if (b >> i & 1) r ^= a; a = (uint8_t)(a << 1) ^ ((a & 0x80) ? 0x1b : 0); } return (r); }
static uint8_t
sbox(uint8_t x)
{
	uint8_t y = 0, r = 0;
	int i;

	for (i = 1; i < 256 && x; i++)
		if (mul(x, (uint8_t)i) == 1)
			y = (uint8_t)i;
	for (i = 0; i < 5; i++)
		r ^= (uint8_t)((y << i) | (y >> (8 - i)));
	return (r ^ 0x63);
}
static uint32_t SUBWORD(uint32_t x) { return (sbox((uint8_t)x) | sbox((uint8_t)(x >> 8)) << 8 | sbox((uint8_t)(x >> 16)) << 16 | (uint32_t)sbox((uint8_t)(x >> 24)) << 24); }
static void
rnd(uint64_t s[2], int last)
{
	uint8_t a[16], b[16];
	int c, r, i;

	memcpy(a, s, 16);
	for (c = 0; c < 4; c++)
		for (r = 0; r < 4; r++)
			b[4 * c + r] = sbox(a[4 * ((c + r) % 4) + r]);
	for (c = 0; c < 4; c++) {
		for (r = 0; r < 4; r++)
			a[4 * c + r] = mul(b[4 * c + r], 2) ^ mul(b[4 * c + (r + 1) % 4], 3) ^ b[4 * c + (r + 2) % 4] ^ b[4 * c + (r + 3) % 4];
	}
	memcpy(s, last ? b : a, 16);
}
#endif

static uint8_t K[32], P[16];

int
main(void)
{
	static const uint8_t rcons[] = { 0, 1, 2, 4, 8, 16, 32, 64, 128, 0x1b, 0x36 };
	uint32_t w[60], t;
	uint64_t s[2] = { 0, 0 };
	uint8_t C[16], C2[16];
	size_t nk = KEYLEN / 4, nr = nk + 6, i, j;
	void * key;

	vp_fillarr(K);
	vp_fillarr(P);

	/* What FIPS 197 says; words in the order of the registers. */
	for (i = 0; i < 4 * (nr + 1); i++) {
		if (i < nk) {
			w[i] = K[4 * i] | (uint32_t)K[4 * i + 1] << 8 | (uint32_t)K[4 * i + 2] << 16 | (uint32_t)K[4 * i + 3] << 24;
			continue;
		}
		t = w[i - 1];
		if (i % nk == 0) {
			t = SUBWORD(t);
			t = ROR(t) ^ rcons[i / nk];
		} else if (nk > 6 && i % nk == 4)
			t = SUBWORD(t);
		w[i] = w[i - nk] ^ t;
	}
	for (i = 0; i < 8; i++) {
		s[0] |= (uint64_t)P[i] << (8 * i);
		s[1] |= (uint64_t)P[8 + i] << (8 * i);
	}
	for (i = 0; i <= nr; i++) {
		if (i > 0)
			rnd(s, i == nr);
		s[0] ^= w[4 * i] | (uint64_t)w[4 * i + 1] << 32;
		s[1] ^= w[4 * i + 2] | (uint64_t)w[4 * i + 3] << 32;
	}

	/* The real code. */
	if (vp_bool()) {
		failalloc = 1;
		vp_assert(crypto_aes_key_expand_aesni(K, KEYLEN) == NULL, "no key without memory");
		return (0);
	}
	key = crypto_aes_key_expand_aesni(K, KEYLEN);
	vp_assert(key != NULL, "the key is expanded");
	crypto_aes_encrypt_block_aesni(P, C, key);
	for (i = 0; i < 16; i++)
		vp_assert(C[i] == (uint8_t)(s[i / 8] >> (8 * (i % 8))), "a block is encrypted as FIPS 197 says");
	_mm_storeu_si128((void *)C2, crypto_aes_encrypt_block_aesni_m128i(_mm_loadu_si128((const void *)P), key));
	for (j = 0; j < 16; j++)
		vp_assert(C2[j] == C[j], "both forms of the function agree");
	crypto_aes_key_free_aesni(key);
	vp_assert(wiped == key && wipedlen >= 16 * (nr + 1), "the expanded key is cleared");
	vp_assert(vp_alloc_live == 0, "the expanded key is freed");
	crypto_aes_key_free_aesni(NULL);
	vp_witness("encrypted");
	return (0);
}
#elif MODE == M_ALIGN
int cpusupport_x86_aesni_detect_1(void) { return (1); }
int
main(void)
{
	static uint8_t arr[64];
	size_t off = vp_srange(0, 31), i;
	uint8_t * p;

	for (i = 0; i < 32; i++) {
		if (i != off)
			continue;
		p = align_ptr(&arr[i], 16);
		vp_assert(p >= &arr[i] && p <= &arr[i] + 15, "the aligned pointer is within the spare bytes");
		vp_assert(((uintptr_t)p) % 16 == 0, "the pointer is aligned");
		vp_witness("aligned");
		vp_done();
	}
	return (0);
}
#else
/* The layer in front: which implementation gets what. */
static uint8_t K[32], P[16], Q[16];
static size_t klen;
static int hw, selftest, ni_bad, ssl_fail, phase, nexp, nenc;
static uint8_t store[sizeof(AES_KEY) + 64];

int cpusupport_x86_aesni_detect_1(void) { return (hw); }
void vp_abort(void) { vp_assert(0, "OpenSSL is right here"); }

/* FIPS 197 appendix C: the answers of the self-test. */
static const uint8_t ct128[16] = { 0x69, 0xc4, 0xe0, 0xd8, 0x6a, 0x7b, 0x04, 0x30, 0xd8, 0xcd, 0xb7, 0x80, 0x70, 0xb4, 0xc5, 0x5a };
static const uint8_t ct256[16] = { 0x8e, 0xa2, 0xb7, 0xca, 0x51, 0x67, 0x45, 0xbf, 0xea, 0xfc, 0x49, 0x90, 0x4b, 0x49, 0x60, 0x89 };
static size_t testlen;

static void
expandcheck(const uint8_t * k, size_t len)
{
	size_t i;

	nexp++;
	if (phase == 0) {
		testlen = len;
		for (i = 0; i < len; i++)
			vp_assume(k[i] == i);
		return;
	}
	vp_assert(len == klen, "the whole key is used");
	for (i = 0; i < 32 && i < klen; i++)
		vp_assert(k[i] == K[i], "the key is the one given");
}

static void
enc(const uint8_t * in, uint8_t * out, int bad)
{
	int i;

	nenc++;
	if (phase == 0) {
		for (i = 0; i < 16; i++)
			out[i] = (testlen == 16) ? ct128[i] : ct256[i];
		if (bad)
			out[3] ^= 1;
		return;
	}
	for (i = 0; i < 16; i++)
		vp_assert(in[i] == P[i], "the block is the one given");
	for (i = 0; i < 16; i++)
		out[i] = Q[i];
}

void *
crypto_aes_key_expand_aesni(const uint8_t * k, size_t len)
{

	vp_assert(hw, "the instructions are used only when present");
	vp_assert(phase == 0 || !ni_bad, "instructions which failed the self-test are not used");
	expandcheck(k, len);
	return (store);
}
void
crypto_aes_encrypt_block_aesni(const uint8_t in[16], uint8_t out[16], const void * k)
{

	vp_assert(hw && k == store, "encrypted under the expanded key");
	vp_assert(phase == 0 || !ni_bad, "instructions which failed the self-test are not used");
	enc(in, out, ni_bad);
}
static int nifreed, sslkey;
void crypto_aes_key_free_aesni(void * k) { vp_assert(hw && k == store, "the expanded key is freed by its owner"); nifreed++; }
int
vp_AES_set_encrypt_key(const unsigned char * k, const int bits, AES_KEY * a)
{

	vp_assert(bits % 8 == 0, "whole bytes");
	expandcheck(k, (size_t)bits / 8);
	if (phase == 1 && ssl_fail)
		return (-1);
	sslkey = 1;
	a->rounds = 4321;
	return (0);
}
void
vp_AES_encrypt(const unsigned char * in, unsigned char * out, const AES_KEY * a)
{

	vp_assert(sslkey && a->rounds == 4321, "encrypted under the expanded key");
	enc(in, out, 0);
}

int
main(void)
{
	struct crypto_aes_key * k;
	uint8_t out[16];
	int i, n, ni;

	vp_fillarr(K);
	vp_fillarr(P);
	vp_fillarr(Q);
	klen = KEYLEN;
	hw = vp_bool();
	ni_bad = vp_bool();
	ssl_fail = vp_bool();
	ni = crypto_aes_can_use_intrinsics();
	vp_assert(ni == (hw && !ni_bad), "the instructions are used if present and right");
	phase = 1;
	nexp = nenc = 0;
	failalloc = vp_bool();
	if ((k = crypto_aes_key_expand(K, klen)) == NULL) {
		vp_assert(!ni && (ssl_fail || failalloc), "the key is expanded");
		vp_assert(vp_alloc_live == 0, "nothing is leaked on failure");
		vp_witness("no key");
		return (0);
	}
	vp_assert(nexp == 1 && (ni || !ssl_fail), "a failure to expand is reported");
	for (n = 1; n <= 2; n++) {
		crypto_aes_encrypt_block(P, out, k);
		vp_assert(nenc == n, "a block is encrypted once");
		for (i = 0; i < 16; i++)
			vp_assert(out[i] == Q[i], "the ciphertext is the one computed");
	}
	nwiped = 0;
	crypto_aes_key_free(k);
	if (ni) {
		vp_assert(nifreed > 0, "the expanded key is freed");
		vp_witness("instructions");
	} else {
		vp_assert(nwiped == 1 && wiped == k && wipedlen == sizeof(AES_KEY), "the expanded key is cleared");
		vp_assert(vp_alloc_live == 0, "the expanded key is freed");
		crypto_aes_key_free(NULL);
		vp_witness("software");
	}
	return (0);
}
#endif
