/*
 * crypto_dh.c over an abstract bignum library: integers are 320-bit numbers,
 * results of modular exponentiation are elements base^exponent of an abstract
 * cyclic group.  Every library call may fail.
 *
 * DHMODE 1: crypto_dh_generate_pub   DHMODE 2: crypto_dh_generate   DHMODE 3: crypto_dh_compute
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include <openssl/bn.h>
int BN_bn2bin(const BIGNUM *, unsigned char *);

#include "vp.h"
#include "crypto_dh.h"
#include "crypto_dh_group14.h"
#include "crypto_entropy.h"

#define L 10		/* 32-bit limbs, least significant first. */

struct bignum_st {
	int elem;		/* 0: an integer; 1: a group element. */
	uint32_t v[L];		/* Value, or the exponent of the element. */
	int base;		/* Element: which base. */
	int secret;		/* Derived from the private value. */
	int big;		/* Integer which does not fit (the public value, p). */
	int isgroup14;
};
struct bignum_ctx { int x; };

#define BASE_TWO 1
#define BASE_PUB 2

static int mayfail = 1, failed, live, ctxlive, secretfreed;
static uint8_t pub[CRYPTO_DH_PUBLEN], priv[CRYPTO_DH_PRIVLEN], priv0[CRYPTO_DH_PRIVLEN];
static uint8_t key[CRYPTO_DH_PUBLEN], result[CRYPTO_DH_PUBLEN], pubin[CRYPTO_DH_PUBLEN];
static int nentropy, resultlen, nmodexp, gotresult;
static const uint8_t * privp;

static int
fail(void)
{

	if (mayfail && vp_bool()) {
		failed = 1;
		return (1);
	}
	return (0);
}

static BIGNUM *
mk(void)
{
	BIGNUM * b = calloc(1, sizeof(BIGNUM));

	vp_assume(b != NULL);
	live++;
	return (b);
}

BIGNUM *
BN_new(void)
{

	return (fail() ? NULL : mk());
}

static int
same(const uint8_t * a, const uint8_t * b, int n)
{
	int i;
	uint8_t d = 0;

	for (i = 0; i < n; i++)
		d |= (uint8_t)(a[i] ^ b[i]);
	return (d == 0);
}

BIGNUM *
BN_bin2bn(const unsigned char * s, int len, BIGNUM * ret)
{
	BIGNUM * b;
	int i, pos;

	if (fail())
		return (NULL);
	b = ret != NULL ? ret : mk();
	memset(b, 0, sizeof(BIGNUM));
	if (len == 256) {
		/* Either the modulus or the public value. */
		b->big = 1;
		b->isgroup14 = same(s, crypto_dh_group14, 256);
		if (!b->isgroup14) {
			vp_assert(same(s, pubin, 256), "the peer's public value is used");
			b->base = BASE_PUB;
		}
		return (b);
	}
	vp_assert(len <= 40, "integers fit the model");
	for (i = 0; i < len; i++) {
		pos = len - 1 - i;
		b->v[pos / 4] |= (uint32_t)s[i] << (8 * (pos % 4));
	}
	if (s == privp)
		b->secret = 1;
	return (b);
}

int
BN_set_word(BIGNUM * a, BN_ULONG w)
{

	if (fail())
		return (0);
	memset(a, 0, sizeof(BIGNUM));
	a->v[0] = (uint32_t)w;
	a->v[1] = (uint32_t)((uint64_t)w >> 32);
	return (1);
}

static void
add(uint32_t r[L], const uint32_t a[L], const uint32_t b[L])
{
	uint64_t c = 0;
	int i;

	for (i = 0; i < L; i++) {
		c += (uint64_t)a[i] + b[i];
		r[i] = (uint32_t)c;
		c >>= 32;
	}
}

int
BN_add(BIGNUM * r, const BIGNUM * a, const BIGNUM * b)
{
	uint32_t t[L];

	vp_assert(!a->elem && !b->elem && !a->big && !b->big, "addition of exponents");
	if (fail())
		return (0);
	add(t, a->v, b->v);
	r->secret = a->secret || b->secret;
	memcpy(r->v, t, sizeof(t));
	return (1);
}

int
BN_sub(BIGNUM * r, const BIGNUM * a, const BIGNUM * b)
{
	uint32_t t[L];
	int64_t c = 0;
	int i;

	vp_assert(!a->elem && !b->elem && !a->big && !b->big, "subtraction of exponents");
	if (fail())
		return (0);
	for (i = 0; i < L; i++) {
		c += (int64_t)a->v[i] - (int64_t)b->v[i];
		t[i] = (uint32_t)c;
		c = (c < 0) ? -1 : 0;
	}
	vp_assert(c == 0, "exponents are not negative");
	r->secret = a->secret || b->secret;
	memcpy(r->v, t, sizeof(t));
	return (1);
}

/* 2^258 + the private value. */
static void
exponent(uint32_t e[L])
{
	int i, pos;

	memset(e, 0, sizeof(uint32_t) * L);
	e[8] = 4;
	for (i = 0; i < 32; i++) {
		pos = 31 - i;
		e[pos / 4] |= (uint32_t)priv0[i] << (8 * (pos % 4));
	}
}

BN_CTX *
BN_CTX_new(void)
{
	BN_CTX * c;

	if (fail())
		return (NULL);
	c = malloc(sizeof(BN_CTX));
	vp_assume(c != NULL);
	ctxlive++;
	return (c);
}

void
BN_CTX_free(BN_CTX * c)
{

	if (c != NULL)
		ctxlive--;
	free(c);
}

int
BN_mod_exp(BIGNUM * r, const BIGNUM * a, const BIGNUM * p, const BIGNUM * m, BN_CTX * ctx)
{
	uint32_t x[L], d = 0;
	int base, i;

	vp_assert(ctx != NULL && m->big && m->isgroup14, "arithmetic is modulo the group #14 prime");
	vp_assert(!p->elem && !p->big, "the exponent is an integer");
	vp_assert(!a->elem, "the base is a public value");
	/* Both exponents of the blinded computation have a fixed high part. */
	vp_assert(p->v[9] == 0 && p->v[8] >= 1 && p->v[8] <= 7, "exponents passed to the library are between 2^256 and 2^259");
	/* Neither exponent is the private one. */
	exponent(x);
	for (i = 0; i < L; i++)
		d |= x[i] ^ p->v[i];
	vp_assert(d != 0, "the private exponent is blinded before it is used");
	if (fail())
		return (0);
	nmodexp++;
	if (a->big) {
		/* p itself as a base (0 mod p) is not of interest. */
		base = BASE_PUB;
	} else {
		vp_assert(a->v[0] == 2 && !a->v[1], "the generator is 2");
		base = BASE_TWO;
	}
	memcpy(r->v, p->v, sizeof(r->v));
	r->elem = 1;
	r->base = base;
	r->secret = 1;
	return (1);
}

int
BN_mod_mul(BIGNUM * r, const BIGNUM * a, const BIGNUM * b, const BIGNUM * m, BN_CTX * ctx)
{
	uint32_t t[L];

	vp_assert(ctx != NULL && m->big && m->isgroup14, "arithmetic is modulo the group #14 prime");
	vp_assert(a->elem && b->elem && a->base == b->base, "product of powers of one base");
	if (fail())
		return (0);
	add(t, a->v, b->v);
	memcpy(r->v, t, sizeof(t));
	r->elem = 1;
	r->base = a->base;
	r->secret = 1;
	return (1);
}

int
BN_bn2binpad(const BIGNUM * a, unsigned char * to, int tolen)
{
	int i;

	vp_assert(tolen == 256, "the result is 2048 bits");
	memset(to, 0, 256);
	i = BN_bn2bin(a, &to[256 - RLEN]);
	return (i < 0 ? i : tolen);
}

int
BN_num_bits(const BIGNUM * a)
{

	vp_assert(a->elem, "size of the result");
	return (resultlen * 8);
}

int
BN_bn2bin(const BIGNUM * a, unsigned char * to)
{
	uint32_t e[L];
	int i;

	vp_assert(a->elem, "a group element is exported");
#if DHMODE == 3
	vp_assert(a->base == BASE_PUB, "a power of the peer's value");
#else
	vp_assert(a->base == BASE_TWO, "a power of 2");
#endif
	exponent(e);
	for (i = 0; i < L; i++)
		vp_assert(a->v[i] == e[i], "the exponent is 2^258 + x");
	gotresult = 1;
	for (i = 0; i < 256; i++)
		if (i < RLEN)
			to[i] = result[256 - resultlen + i];
	return (resultlen);
}

void
BN_free(BIGNUM * a)
{

	if (a == NULL)
		return;
	vp_assert(!a->secret, "numbers derived from the private value are cleared before they are freed");
	live--;
	free(a);
}

void
BN_clear_free(BIGNUM * a)
{

	if (a == NULL)
		return;
	live--;
	free(a);
}

void
BN_clear(BIGNUM * a)
{

	memset(a, 0, sizeof(BIGNUM));
}

unsigned long ERR_get_error(void) { return (0); }
char * ERR_error_string(unsigned long e, char * b) { (void)e; (void)b; return (NULL); }
void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

int
crypto_entropy_read(uint8_t * buf, size_t len)
{
	static uint8_t e[32];

	vp_assert(len == 32, "256 bits of entropy at a time");
	if (fail())
		return (-1);
	vp_fillarr(e);
	memcpy(buf, e, 32);
	if (DHMODE == 2 && nentropy == 0) {
		memcpy(priv0, e, 32);
		vp_assert(buf == privp, "the first random value is the private value");
	}
	nentropy++;
	return (0);
}

int
main(void)
{
	int r, i;

	privp = priv;
	vp_fillarr(result);
	resultlen = RLEN;
	vp_fillarr(key);
#if DHMODE == 1
	vp_fillarr(priv);
	memcpy(priv0, priv, 32);
	r = crypto_dh_generate_pub(key, priv);
#elif DHMODE == 2
	r = crypto_dh_generate(key, priv);
#else
	vp_fillarr(priv);
	memcpy(priv0, priv, 32);
	vp_fillarr(pubin);
	/* The caller has checked that the value is smaller than p. */
	vp_assume(memcmp(pubin, crypto_dh_group14, 256) < 0);
	r = crypto_dh_compute(pubin, priv, key);
#endif
	vp_assert(r == 0 || r == -1, "0 or -1 is returned");
	vp_assert((r == 0) == !failed, "failure of any step, and nothing else, is a failure");
	if (r == 0) {
		vp_assert(gotresult, "a result is computed");
		vp_assert(nentropy == (DHMODE == 2 ? 2 : 1), "fresh blinding is drawn");
		for (i = 0; i < 256; i++)
			vp_assert(key[i] == (i < 256 - resultlen ? 0 : result[i]), "the result is the 2048-bit big-endian value");
		vp_assert(same(priv, priv0, 32), "the private value is what was used");
		vp_witness("computed");
	} else
		vp_witness("failed");
	vp_assert(live == 0 && ctxlive == 0, "all numbers are freed");
	return (0);
}
