/*
 * drbg.c: the random number generator is HMAC_DRBG (SP 800-90A) with HMAC an
 * uninterpreted function, seeded by whatever entropy_read() and RDRAND give.
 * COUNT: HMAC hands out serial numbers instead, for long histories.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "sha256.h"
#include "crypto_entropy.h"
#include "entropy.h"

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
int cpusupport_x86_rdrand_present_1, cpusupport_x86_rdrand_init_1;
static int hasrd;
int cpusupport_x86_rdrand_detect_1(void) { return (hasrd); }

static const volatile void * wiped[24];
static int nwiped;
static void
wipe(volatile void * p, size_t n)
{

	(void)n;
	if (nwiped < 24)
		wiped[nwiped++] = p;
}
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;

#ifdef COUNT
static uint8_t buf[BIG];
static int serial[2], noted;

/* Output goes nowhere, but is looked at where a request has to end. */
static int
note(const uint8_t * d, const uint8_t * s)
{
	size_t off;

#ifdef VP_SYM
	if (!__CPROVER_same_object(d, buf))
		return (0);
#else
	if (d < buf || d >= buf + BIG)
		return (0);
#endif
	off = (size_t)(d - buf);
	if (off == 65504 || off == 65536) {
		serial[off == 65536] = s[0] + 256 * s[1];
		noted++;
	}
	return (BIG > 1000);
}
#else
#define note(d, s) 0
#endif
void * vp_memcpy(void * d, const void * s, size_t n) { uint8_t * a = d; const uint8_t * b = s; size_t i; if (note(a, b)) return (d); for (i = 0; i < n; i++) a[i] = b[i]; return (d); }
void * vp_memset(void * d, int c, size_t n) { uint8_t * a = d; size_t i; for (i = 0; i < n; i++) a[i] = (uint8_t)c; return (d); }

/* HMAC as a function of the key and the message. */
#define MSG 96
#ifdef COUNT
/* The same serial number for the same recent call. */
#define TAB 128
static struct call { size_t n; uint32_t k, v, d, r; uint8_t sep; } calls[TAB];
static uint32_t ncalls;
static uint32_t get32(const uint8_t * p) { return (p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24); }
static uint32_t
sum(const uint8_t * p, size_t n)
{
	uint32_t x = (uint32_t)n;
	size_t i;

	for (i = 0; i < n; i++)
		x = x * 257 + p[i];
	return (x);
}
static void
hmac(const uint8_t * k, const uint8_t * m, size_t n, uint8_t out[32])
{
	uint32_t r;
	int i;
#if BIG == 1
	uint8_t sep = (n > 32) ? m[32] : 0;
	uint32_t d = (n > 33) ? sum(&m[33], n - 33) : 0;
	struct call * c = &calls[(4 * get32(m) + (n > 32) + sep) % TAB];

	if (c->r == 0 || c->n != n || c->k != get32(k) || c->v != get32(m) || c->sep != sep || c->d != d) {
		c->n = n;
		c->k = get32(k);
		c->v = get32(m);
		c->sep = sep;
		c->d = d;
		c->r = ++ncalls;
	}
	r = c->r;
#else
	(void)k; (void)m; (void)n;
	r = ++ncalls;
#endif
	for (i = 0; i < 4; i++)
		out[i] = (uint8_t)(r >> (8 * i));
	for (; i < 32; i++)
		out[i] = 0;
}
#elif defined(VP_SYM)
#define UF(n) uint64_t __CPROVER_uninterpreted_##n(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t)
UF(u0); UF(u1); UF(u2); UF(u3);
static void
hmac(const uint8_t * k, const uint8_t * m, size_t n, uint8_t out[32])
{
	uint64_t x[17], y[4];
	size_t i, j, p;

	for (i = 0; i < 16; i++) {
		x[i] = 0;
		for (j = 0; j < 8; j++) {
			p = 8 * i + j;
			x[i] = x[i] << 8 | ((i < 4) ? k[p] : (p - 32 < n) ? m[p - 32] : 0);
		}
	}
	x[16] = n;
#define CALL(n) y[n] = __CPROVER_uninterpreted_u##n(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16])
	CALL(0); CALL(1); CALL(2); CALL(3);
	for (i = 0; i < 32; i++)
		out[i] = (uint8_t)(y[i / 8] >> (8 * (i % 8)));
}
#else
static void
hmac(const uint8_t * k, const uint8_t * m, size_t n, uint8_t out[32])
{
	uint32_t x = 1 + (uint32_t)n;
	uint8_t y[32];
	size_t i, r;

	for (r = 0; r < 32; r++) {
		for (i = 0; i < 32; i++)
			x = (x ^ k[i]) * 0x01000193 + (x >> 15);
		for (i = 0; i < n; i++)
			x = (x ^ m[i]) * 0x01000193 + (x >> 15);
		y[r] = (uint8_t)x;
	}
	memcpy(out, y, 32);
}
#endif

/* The interface the generator uses: one message at a time. */
static uint8_t ck[32], cm[MSG];
static size_t cn;
void
HMAC_SHA256_Init(HMAC_SHA256_CTX * c, const void * k, size_t n)
{
	size_t i;

	(void)c;
	vp_assert(n == 32, "the key has 32 bytes");
	for (i = 0; i < 32; i++)
		ck[i] = ((const uint8_t *)k)[i];
	cn = 0;
}
void
HMAC_SHA256_Update(HMAC_SHA256_CTX * c, const void * d, size_t n)
{
	size_t i;

	(void)c;
	vp_assert(cn + n <= MSG, "no more data than the standard says");
	for (i = 0; i < n; i++)
		cm[cn++] = ((const uint8_t *)d)[i];
}
void HMAC_SHA256_Final(uint8_t out[32], HMAC_SHA256_CTX * c) { (void)c; hmac(ck, cm, cn, out); }
void
HMAC_SHA256_Buf(const void * k, size_t kn, const void * d, size_t n, uint8_t out[32])
{
	uint8_t o[32];

	vp_assert(kn == 32, "the key has 32 bytes");
	hmac(k, d, n, o);
	vp_memcpy(out, o, 32);
}

/* Entropy. */
static uint8_t ent[2][48], rdr[2][32];
static int nent, nrd, entfail[3], rdfail[2], req;
static size_t entlen;
static const uint8_t * entbuf;
int
entropy_read(uint8_t * b, size_t n)
{
	size_t i;

#ifdef COUNT
	vp_assert(n >= 32, "enough entropy");
	nent++;
	if (entfail[nent > 2 ? 2 : nent - 1])
		return (-1);
	req = 0;
	for (i = 0; i < n; i++)
		b[i] = ent[nent == 1 ? 0 : 1][i];
	return (0);
#endif
	if (entfail[nent]) {
		nent++;
		return (-1);
	}
	nent++;
	vp_assert(n == 48, "entropy and a nonce");
	entbuf = b;
	for (i = 0; i < 48; i++)
		b[i] = ent[0][i];
	return (0);
}
int
generate_seed_rdrand(unsigned int * b, size_t n)
{
	size_t i;

	vp_assert(hasrd, "RDRAND is used only when present");
	nrd++;
	if (rdfail[0]) {
		if (n > 0)
			b[0] = 0x11223344;
		return (1);
	}
	vp_assert(n == 8, "32 bytes of RDRAND");
	for (i = 0; i < 8; i++)
		b[i] = rdr[0][4 * i] | (unsigned)rdr[0][4 * i + 1] << 8 | (unsigned)rdr[0][4 * i + 2] << 16 | (unsigned)rdr[0][4 * i + 3] << 24;
	return (0);
}

/* SP 800-90A, 10.1.2. */
static uint8_t K[32], V[32];
static void
supdate(const uint8_t * d, size_t n)
{
	uint8_t m[MSG];
	size_t i;
	int r;

	for (r = 0; r < 2; r++) {
		for (i = 0; i < 32; i++)
			m[i] = V[i];
		m[32] = (uint8_t)r;
		for (i = 0; i < n; i++)
			m[33 + i] = d[i];
		hmac(K, m, 33 + n, K);
		hmac(K, V, 32, V);
		if (n == 0)
			break;
	}
}

#ifdef COUNT
int
main(void)
{
	size_t i;
	int n = 0, at, rc;

	for (i = 0; i < 48; i++) {
		ent[0][i] = (uint8_t)(3 * i + 1);
		ent[1][i] = (uint8_t)(5 * i + 7);
	}
	for (i = 0; i < 32; i++) {
		rdr[0][i] = (uint8_t)(9 * i + 2);
		V[i] = 1;
	}
	hasrd = HASRD;
	/* The first seeding works; the second may not, and is tried again. */
	entfail[1] = FAIL2;
	for (i = 0; i < NREQ; i++) {
		at = nent;
		rc = crypto_entropy_read(buf, BIG);
#if NREQ > 256 && FAIL2
		if (rc) {
			vp_assert(at == 1 && nent == 2 && entfail[1], "fails only when there is no entropy");
			vp_assert(n == 256, "seeded first");
			vp_assert(crypto_entropy_read(buf, BIG) == 0 && nent == 3, "seeding is tried again before the next use");
			vp_witness("failed reseed");
			vp_done();
		}
#endif
		vp_assert(rc == 0, "bytes are provided");
		n++;
		req += (BIG + 65535) / 65536;
		vp_assert(req <= 256, "at most 256 requests between seedings");
		if (nent != at) {
			vp_assert(nent == at + 1, "seeded once");
			supdate(ent[nent - 1], nent == 1 ? 48 : 32);
			if (hasrd)
				supdate(rdr[0], 32);
		}
#if BIG == 1
		hmac(K, V, 32, V);
		vp_assert(buf[0] == V[0], "each byte is the next of the generator's output");
		supdate(NULL, 0);
#else
		if (noted == 2) {
			/* State renewed after 2^16 bytes: the blocks of the second part follow two other HMACs. */
			vp_assert(serial[1] != serial[0] + 1, "at most 2^16 bytes from one state");
			vp_witness("long request");
		}
#endif
	}
	vp_assert(nent == 2 || NREQ * ((BIG + 65535) / 65536) <= 256, "reseeded in time");
#if !FAIL2
	vp_witness("many requests");
#endif
	return (0);
}
#else
static uint8_t buf[100];
static void
one(size_t n)
{
	size_t i, j;
	int rc, f = 0;

	for (i = 0; i < sizeof(buf); i++)
		buf[i] = 0x5a;
	nwiped = 0;
	entbuf = NULL;
	rc = crypto_entropy_read(buf, n);
	if (entbuf != NULL) {
		for (i = 0; i < 24; i++)
			f |= ((int)i < nwiped && wiped[i] == entbuf);
		vp_assert(f, "the seed is cleared");
	}
	vp_assert(rc == 0, "bytes are provided");
	for (i = 0; i < n; i += 32) {
		hmac(K, V, 32, V);
		for (j = 0; j < 32 && i + j < n; j++)
			vp_assert(buf[i + j] == V[j], "each byte is the next of the generator's output");
	}
	for (i = n; i < sizeof(buf); i++)
		vp_assert(buf[i] == 0x5a, "nothing beyond the buffer is written");
	if (n > 0)
		supdate(NULL, 0);
}

static void
seed(void)
{
	int i;

	for (i = 0; i < 32; i++) {
		K[i] = 0;
		V[i] = 1;
	}
	supdate(ent[0], 48);
	if (hasrd && !rdfail[0])
		supdate(rdr[0], 32);
}

int
main(void)
{
	static const uint8_t lens[] = { LENS };
	size_t i, x = vp_u8();

	vp_fillarr(ent[0]);
	vp_fillarr(rdr[0]);
	hasrd = HASRD;
	rdfail[0] = RDFAIL;
	entfail[0] = ENTFAIL;
#if ENTFAIL
	if (entfail[0]) {
		buf[0] = 0x5a;
		vp_assert(crypto_entropy_read(buf, 8) == -1, "no bytes without entropy");
		vp_assert(buf[0] == 0x5a, "no bytes without entropy");
		vp_witness("no entropy");
	}
#endif
	seed();
	one(0);
	for (i = 0; i + 1 < sizeof(lens); i += 2) {
		if (x != i)
			continue;
		one(lens[i]);
		one(lens[i + 1]);
		vp_assert(nent == 1 + entfail[0], "seeded once");
		vp_witness("two requests");
		vp_done();
	}
	return (0);
}
#endif
