#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "ideal.h"
#include "crypto_aes.h"
#include "crypto_aesctr.h"

struct ideal_mac ideal_macs[IDEAL_NMAC];
int ideal_nmac;
struct ideal_ks ideal_kss[IDEAL_NKS];
int ideal_nks;
struct ideal_kdf ideal_kdfs[IDEAL_NKDF];
int ideal_nkdf;
int ideal_injective;
int ideal_aeskeys;
int ideal_aes_mayfail;
size_t ideal_observe;

int
ideal_eq(const uint8_t * a, const uint8_t * b, size_t len)
{
	size_t i;
	uint8_t d = 0;

	for (i = 0; i < len; i++)
		d |= (uint8_t)(a[i] ^ b[i]);
	return (d == 0);
}

/* ---- HMAC ---- */

void
HMAC_SHA256_Init(HMAC_SHA256_CTX * ctx, const void * K, size_t Klen)
{
	const uint8_t * k = K;
	size_t i;

	vp_assert(Klen == 32, "MAC keys are 256 bits");
	ctx->live = 1;
	for (i = 0; i < 32; i++)
		ctx->key[i] = k[i];
	ctx->len = 0;
}

void
HMAC_SHA256_Update(HMAC_SHA256_CTX * ctx, const void * in, size_t len)
{
	const uint8_t * p = in;
	size_t i;

	vp_assert(ctx->live == 1, "MAC context in use is initialised");
	vp_assert(len <= IDEAL_MAXMSG - ctx->len, "MACed message is not longer than a packet");
	(void)i;
	memcpy(&ctx->data[ctx->len], p, len);
	ctx->len += len;
}

static void
mac(const uint8_t * key, const uint8_t msg[], size_t len, uint8_t out[32])
{
	int n;
	size_t i;
	int j, same[IDEAL_NMAC], dup;

#ifdef IDEAL_TRIVIAL
	uint8_t o[32];

	vp_fillarr(o);
	memcpy(out, o, 32);
	return;
#endif

	vp_assert(ideal_nmac < IDEAL_NMAC, "no more MAC computations than expected");
	n = ideal_nmac;
	for (i = 0; i < 32; i++)
		ideal_macs[n].key[i] = key[i];
	ideal_macs[n].len = len;
	ideal_macs[n].used = 1;
	memcpy(ideal_macs[n].msg, msg, len);
	vp_fillarr(ideal_macs[n].out);
	dup = 0;
	for (j = 0; j < ideal_nmac; j++) {
		same[j] = ideal_macs[j].used && ideal_macs[j].len == len &&
		    ideal_eq(ideal_macs[j].key, key, 32) &&
		    ideal_eq(ideal_macs[j].msg, msg, len);
		dup |= same[j];
	}
	for (j = 0; j < ideal_nmac; j++) {
		if (same[j]) {
			for (i = 0; i < 32; i++)
				ideal_macs[n].out[i] = ideal_macs[j].out[i];
		} else if (ideal_injective && !dup && ideal_macs[j].used) {
			vp_assume(!ideal_eq(ideal_macs[j].out, ideal_macs[n].out, 32));
		}
	}
	ideal_nmac++;
	for (i = 0; i < 32; i++)
		out[i] = ideal_macs[n].out[i];
}

void
HMAC_SHA256_Final(uint8_t digest[32], HMAC_SHA256_CTX * ctx)
{

	vp_assert(ctx->live == 1, "MAC context finalised is initialised");
	mac(ctx->key, ctx->data, ctx->len, digest);
	ctx->live = 0;
}

void
HMAC_SHA256_Buf(const void * K, size_t Klen, const void * in, size_t len,
    uint8_t digest[32])
{

	vp_assert(Klen == 32, "MAC keys are 256 bits");
	vp_assert(len <= IDEAL_MAXMSG, "MACed message is not longer than a packet");
	mac(K, in, len, digest);
}

/* ---- PBKDF2 ---- */

void
PBKDF2_SHA256(const uint8_t * pw, size_t pwlen, const uint8_t * salt,
    size_t saltlen, uint64_t c, uint8_t * dk, size_t dklen)
{
	struct ideal_kdf * m;
	size_t i;
	int j, same;

	vp_assert(pwlen == 32, "the key derivation secret is 256 bits");
	vp_assert(saltlen <= IDEAL_KDFSALT && dklen <= 128, "key derivation sizes");
#ifdef IDEAL_TRIVIAL
	{
		uint8_t o[128];

		vp_fillarr(o);
		memcpy(dk, o, dklen);
		return;
	}
#endif
	vp_assert(ideal_nkdf < IDEAL_NKDF, "no more key derivations than expected");
	m = &ideal_kdfs[ideal_nkdf];
	m->pwlen = pwlen;
	m->saltlen = saltlen;
	m->c = c;
	m->dklen = dklen;
	for (i = 0; i < 32; i++)
		m->pw[i] = pw[i];
	for (i = 0; i < saltlen; i++)
		m->salt[i] = salt[i];
	/* Output bytes do not depend on how many are asked for. */
	vp_fillarr(m->dk);
	for (j = 0; j < ideal_nkdf; j++) {
		same = ideal_kdfs[j].saltlen == saltlen &&
		    ideal_kdfs[j].c == c &&
		    ideal_eq(ideal_kdfs[j].pw, pw, 32) &&
		    ideal_eq(ideal_kdfs[j].salt, salt, saltlen);
		if (same) {
			for (i = 0; i < 128; i++)
				m->dk[i] = ideal_kdfs[j].dk[i];
		}
	}
	ideal_nkdf++;
	for (i = 0; i < dklen; i++)
		dk[i] = m->dk[i];
}

/* ---- AES-CTR ---- */

struct crypto_aes_key {
	uint8_t key[32];
	size_t len;
};

struct crypto_aes_key *
crypto_aes_key_expand(const uint8_t * key, size_t len)
{
	struct crypto_aes_key * k;
	size_t i;

	if (ideal_aes_mayfail && vp_bool())
		return (NULL);
	vp_assert(len == 16 || len == 32, "AES key length");
	k = malloc(sizeof(struct crypto_aes_key));
	k->len = len;
	for (i = 0; i < 32; i++)
		k->key[i] = i < len ? key[i] : 0;
	ideal_aeskeys++;
	return (k);
}

void
crypto_aes_key_free(struct crypto_aes_key * k)
{

	if (k == NULL)
		return;
	ideal_aeskeys--;
	free(k);
}

void
crypto_aesctr_buf(const struct crypto_aes_key * key, uint64_t nonce,
    const uint8_t * in, uint8_t * out, size_t len)
{
	int n;
	size_t i;
	int j;

	vp_assert(len <= IDEAL_KSLEN, "keystream is not longer than a packet");
#ifdef IDEAL_TRIVIAL
	{
		uint8_t o[IDEAL_KSLEN];

		vp_fillarr(o);
		memcpy(out, o, len);
		return;
	}
#endif
	vp_assert(ideal_nks < IDEAL_NKS, "no more encryptions than expected");
	n = ideal_nks;
	for (i = 0; i < 32; i++)
		ideal_kss[n].key[i] = key->key[i];
	ideal_kss[n].keylen = key->len;
	ideal_kss[n].nonce = nonce;
	ideal_kss[n].len = len;
	ideal_kss[n].used = 1;
	vp_fillarr(ideal_kss[n].ks);
	for (j = 0; j < ideal_nks; j++) {
		if (ideal_kss[j].used && ideal_kss[j].nonce == nonce &&
		    ideal_kss[j].keylen == key->len &&
		    ideal_eq(ideal_kss[j].key, key->key, 32)) {
			for (i = 0; i < IDEAL_KSLEN; i++)
				ideal_kss[n].ks[i] = ideal_kss[j].ks[i];
		}
	}
	ideal_nks++;
#ifdef IDEAL_OBSERVE
	/*
	 * Large packets: the ciphertext is arbitrary, except that it is
	 * plaintext xor keystream at the (arbitrary) position the harness
	 * observes and in the length field.  This admits more behaviours than
	 * the real cipher.
	 */
	{
		static uint8_t o[IDEAL_KSLEN];

		vp_fillarr(o);
		i = ideal_observe;
		if (i < len)
			o[i] = (uint8_t)(in[i] ^ ideal_kss[n].ks[i]);
		for (i = IDEAL_KSLEN - 4; i < IDEAL_KSLEN; i++)
			o[i] = (uint8_t)(in[i] ^ ideal_kss[n].ks[i]);
		memcpy(out, o, len);
	}
#else
	for (i = 0; i < len; i++)
		out[i] = (uint8_t)(in[i] ^ ideal_kss[n].ks[i]);
#endif
}

/* The streaming interface, should the code under test prefer it. */
struct crypto_aesctr {
	const struct crypto_aes_key * key;
	uint64_t nonce;
};

struct crypto_aesctr *
crypto_aesctr_alloc(void)
{

	return (malloc(sizeof(struct crypto_aesctr)));
}

void
crypto_aesctr_init2(struct crypto_aesctr * s, const struct crypto_aes_key * key,
    uint64_t nonce)
{

	if (key != NULL)
		s->key = key;
	s->nonce = nonce;
}

struct crypto_aesctr *
crypto_aesctr_init(const struct crypto_aes_key * key, uint64_t nonce)
{
	struct crypto_aesctr * s = crypto_aesctr_alloc();

	crypto_aesctr_init2(s, key, nonce);
	return (s);
}

void
crypto_aesctr_stream(struct crypto_aesctr * s, const uint8_t * in, uint8_t * out,
    size_t len)
{

	crypto_aesctr_buf(s->key, s->nonce, in, out, len);
}

void
crypto_aesctr_free(struct crypto_aesctr * s)
{

	free(s);
}
