/*
 * Key derivation: proto_crypt_secret, _dhmac, _dh_generate, _dh_validate and
 * _mkkeys for both ends of one connection.
 *
 * KEYS 1: client and server derive the same keys, as DESIGN.md says.
 * KEYS 2: any step may fail to allocate.
 * KEYS 3: validation of an arbitrary diffie-hellman message.
 */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "alloc.h"
#include "ideal.h"
#include "crypto_dh_group14.h"
#include "proto_crypt.h"
#define N PCRYPT_MAXDSZ

static uint8_t one[CRYPTO_DH_PUBLEN];
static uint8_t pubs[2][CRYPTO_DH_PUBLEN], privs[2][32], shared[CRYPTO_DH_KEYLEN];
static int ngen, ncomp, dhfail;

#if KEYS != 3
/* A diffie-hellman group with one shared secret for the two generated keys. */
int
crypto_dh_generate(uint8_t pub[CRYPTO_DH_PUBLEN], uint8_t priv[CRYPTO_DH_PRIVLEN])
{

	if (dhfail && vp_bool())
		return (-1);
	vp_assert(ngen < 2, "two key pairs");
	if (ngen == 0) {
		memcpy(pub, pubs[0], 256);
		memcpy(priv, privs[0], 32);
	} else {
		memcpy(pub, pubs[1], 256);
		memcpy(priv, privs[1], 32);
	}
	ngen++;
	return (0);
}

int
crypto_dh_compute(const uint8_t pub[CRYPTO_DH_PUBLEN],
    const uint8_t priv[CRYPTO_DH_PRIVLEN], uint8_t key[CRYPTO_DH_KEYLEN])
{
	int p, x;

	if (dhfail && vp_bool())
		return (-1);
	ncomp++;
	if (ideal_eq(pub, one, 256)) {
		memcpy(key, one, 256);
		return (0);
	}
	if (dhfail) {
		memcpy(key, shared, 256);
		return (0);
	}
	/* pub must be one key and priv the other one. */
	p = ideal_eq(pub, pubs[0], 256) ? 0 : 1;
	x = ideal_eq(priv, privs[0], 32) ? 0 : 1;
	vp_assert(ideal_eq(pub, pubs[p], 256), "the remote diffie-hellman value is used");
	vp_assert(ideal_eq(priv, privs[x], 32), "the local diffie-hellman secret is used");
	vp_assert(p != x, "local secret with remote value");
	memcpy(key, shared, 256);
	return (0);
}
int crypto_dh_sanitycheck(const uint8_t * a) { (void)a; return (0); }
#endif
void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

/* The key file: the subject of another property. */
static FILE * thefile;
static uint8_t Kbytes[32];
FILE * vp_fopen(const char * a, const char * b) { (void)a; (void)b; return (thefile); }
size_t vp_fread(void * a, size_t b, size_t c, FILE * f) { (void)a; (void)b; (void)c; (void)f; return (0); }
int vp_feof(FILE * f) { (void)f; return (1); }
int vp_ferror(FILE * f) { (void)f; return (0); }
int vp_fclose(FILE * f) { (void)f; return (0); }
void SHA256_Init(SHA256_CTX * c) { (void)c; }
void SHA256_Update(SHA256_CTX * c, const void * a, size_t b) { (void)c; (void)a; (void)b; }
void SHA256_Final(uint8_t a[32], SHA256_CTX * c) { (void)c; memcpy(a, Kbytes, 32); }

static uint8_t nc[32], ns[32], dhc_c[32], dhs_c[32], dhc_s[32], dhs_s[32];
static uint8_t yh_c[PCRYPT_YH_LEN], yh_s[PCRYPT_YH_LEN], x_c[32], x_s[32];
static uint8_t buf[N], pkt[PCRYPT_ESZ];
static struct proto_secret * KC, * KS;
static int dummy;

static void
keycheck(struct proto_keys * k, int slot, const uint8_t * dk)
{

	vp_fillarr(buf);
	proto_crypt_enc(buf, N, pkt, k);
	vp_assert(ideal_kss[slot].keylen == 32 && ideal_eq(ideal_kss[slot].key, &dk[0], 32), "AES-256 key of the direction");
	vp_assert(ideal_kss[slot].nonce == 0, "first packet number");
	vp_assert(ideal_eq(ideal_macs[ideal_nmac - 1].key, &dk[32], 32), "MAC key of the direction");
}

int
main(void)
{

	one[255] = 1;
	thefile = (FILE *)&dummy;
	vp_fillarr(Kbytes);
	vp_fillarr(nc);
	vp_fillarr(ns);
	vp_fillarr(pubs[0]);
	vp_fillarr(pubs[1]);
	vp_fillarr(privs[0]);
	vp_fillarr(privs[1]);
	vp_fillarr(shared);

#if KEYS == 1 || KEYS == 2
	struct proto_keys * cc = NULL, * cs = NULL, * sc = NULL, * ss = NULL;
	int r;
#if KEYS == 1
	int nopfs_c = NC, nopfs_s = NS;
#else
	int nopfs_c = vp_bool(), nopfs_s = vp_bool();
#endif
	/* Distinct key pairs, and 1 is not generated. */
	vp_assume(!ideal_eq(pubs[0], pubs[1], 256) && !ideal_eq(privs[0], privs[1], 32));
	vp_assume(!ideal_eq(pubs[0], one, 256) && !ideal_eq(pubs[1], one, 256));
#if KEYS == 2
	vp_alloc_mayfail = 1;
	ideal_aes_mayfail = 1;
	dhfail = 1;
#endif
	KC = proto_crypt_secret("k");
	KS = proto_crypt_secret("k");
#if KEYS == 2
	vp_assert((KC != NULL && KS != NULL) || vp_alloc_failed, "reading the key succeeds unless allocation fails");
	if (KC == NULL || KS == NULL) {
		vp_witness("no secret");
		goto done;
	}
	proto_crypt_dhmac(KC, nc, ns, dhc_c, dhs_c, 0);
	r = proto_crypt_dh_generate(yh_c, x_c, dhc_c, nopfs_c);
	if (r) {
		vp_assert(!nopfs_c, "only diffie-hellman can fail");
		vp_witness("generation failed");
		goto done;
	}
	r = proto_crypt_mkkeys(KC, nc, ns, yh_s, x_c, nopfs_c, nopfs_s, &cc, &cs);
	if (r) {
		vp_assert(r == -1, "failure is reported as -1");
		cc = cs = NULL;
		vp_witness("keys failed");
	} else {
		vp_assert(cc != NULL && cs != NULL && ideal_aeskeys == 2, "success delivers both keys");
		vp_witness("keys made");
	}
	goto done;
#endif
#if KEYS == 1
	vp_assert(KC != NULL && KS != NULL, "reading the key succeeds");

	/* Nonces are exchanged; both sides compute the MAC keys. */
	proto_crypt_dhmac(KC, nc, ns, dhc_c, dhs_c, 0);
	proto_crypt_dhmac(KS, ns, nc, dhs_s, dhc_s, 1);
	vp_assert(ideal_nkdf == 2, "one derivation on each side");
	vp_assert(ideal_kdfs[0].saltlen == 64 && ideal_kdfs[0].c == 1 && ideal_kdfs[0].dklen == 64, "dk_1 is 512 bits, one iteration");
	vp_assert(ideal_eq(ideal_kdfs[0].pw, Kbytes, 32), "dk_1 is derived from the secret");
	vp_assert(ideal_eq(&ideal_kdfs[0].salt[0], nc, 32) && ideal_eq(&ideal_kdfs[0].salt[32], ns, 32), "dk_1 covers nonce_C then nonce_S");
	vp_assert(ideal_eq(dhc_c, &ideal_kdfs[0].dk[0], 32) && ideal_eq(dhs_c, &ideal_kdfs[0].dk[32], 32), "dk_1 is dhmac_C then dhmac_S");
	vp_assert(ideal_eq(dhc_c, dhc_s, 32) && ideal_eq(dhs_c, dhs_s, 32), "both sides have the same MAC keys");

	/* Server and client each send y || h. */
	r = proto_crypt_dh_generate(yh_c, x_c, dhc_c, nopfs_c);
	if (r == 0)
		r = proto_crypt_dh_generate(yh_s, x_s, dhs_s, nopfs_s);
	vp_assert(r == 0, "generation succeeds");
	vp_assert(ngen == !nopfs_c + !nopfs_s, "keys are generated if and only if forward secrecy is on");
	if (nopfs_c)
		vp_assert(ideal_eq(yh_c, one, 256), "y is 1 without forward secrecy");
	else
		vp_assert(ideal_eq(yh_c, pubs[0], 256), "y is the diffie-hellman value");
	vp_assert(ideal_eq(ideal_macs[0].key, dhc_c, 32) && ideal_macs[0].len == 256 && ideal_eq(ideal_macs[0].msg, yh_c, 256) &&
	    ideal_eq(&yh_c[256], ideal_macs[0].out, 32), "h_C is the MAC of y_C under dhmac_C");
	vp_assert(ideal_eq(ideal_macs[1].key, dhs_c, 32) && ideal_macs[1].len == 256 && ideal_eq(ideal_macs[1].msg, yh_s, 256) &&
	    ideal_eq(&yh_s[256], ideal_macs[1].out, 32), "h_S is the MAC of y_S under dhmac_S");
	vp_assert(proto_crypt_dh_validate(yh_c, dhc_s, !nopfs_c) == 0, "an honest client is accepted");
	vp_assert(proto_crypt_dh_validate(yh_s, dhs_c, !nopfs_s) == 0, "an honest server is accepted");

	/* Keys. */
	r = proto_crypt_mkkeys(KC, nc, ns, yh_s, x_c, nopfs_c, 0, &cc, &cs);
	vp_assert(r == 0, "key derivation succeeds");
	r = proto_crypt_mkkeys(KS, ns, nc, yh_c, x_s, nopfs_s, 1, &sc, &ss);
	vp_assert(r == 0, "key derivation succeeds");
	vp_assert(ideal_nkdf == 4, "one more derivation on each side");
	vp_assert(ideal_kdfs[2].saltlen == 64 + 256 && ideal_kdfs[2].c == 1 && ideal_kdfs[2].dklen == 128, "dk_2 is 1024 bits, one iteration");
	vp_assert(ideal_eq(ideal_kdfs[2].pw, Kbytes, 32), "dk_2 is derived from the secret");
	vp_assert(ideal_eq(&ideal_kdfs[2].salt[0], nc, 32) && ideal_eq(&ideal_kdfs[2].salt[32], ns, 32), "dk_2 covers nonce_C then nonce_S");
	if (nopfs_c || nopfs_s)
		vp_assert(ideal_eq(&ideal_kdfs[2].salt[64], one, 256), "y_SC is 1 if either side opts out of forward secrecy");
	else
		vp_assert(ideal_eq(&ideal_kdfs[2].salt[64], shared, 256), "dk_2 covers the shared diffie-hellman value");
	vp_assert(ideal_kdfs[3].saltlen == 320 && ideal_eq(ideal_kdfs[3].salt, ideal_kdfs[2].salt, 320), "both sides derive from the same values");
	ideal_nmac = 0;
	memset(ideal_macs, 0, sizeof(ideal_macs));
	keycheck(cc, 0, &ideal_kdfs[2].dk[0]);
	keycheck(cs, 1, &ideal_kdfs[2].dk[64]);
	keycheck(sc, 2, &ideal_kdfs[2].dk[0]);
	keycheck(ss, 3, &ideal_kdfs[2].dk[64]);
	vp_witness("keys agreed");
#endif
#if KEYS == 2
done:
#endif
	proto_crypt_free(cc);
	proto_crypt_free(cs);
	proto_crypt_free(sc);
	proto_crypt_free(ss);
	proto_crypt_secret_free(KC);
	proto_crypt_secret_free(KS);
	vp_assert(ideal_aeskeys == 0, "expanded AES keys are freed");
	vp_assert(vp_alloc_live == 0, "all memory is freed");
#endif
#if KEYS == 3
	uint8_t key[32];
	int req = vp_int(), r, i, macok, lt, isone;

	vp_fillarr(key);
	vp_fillarr(yh_c);
	r = proto_crypt_dh_validate(yh_c, key, req);
	vp_assert(ideal_nmac == 1 && ideal_macs[0].len == 256 && ideal_eq(ideal_macs[0].key, key, 32) &&
	    ideal_eq(ideal_macs[0].msg, yh_c, 256), "the MAC covers the 256-byte value under the peer's key");
	macok = ideal_eq(ideal_macs[0].out, &yh_c[256], 32);
	/* y < p, most significant byte first. */
	lt = 0;
	for (i = 255; i >= 0; i--)
		lt = (yh_c[i] < crypto_dh_group14[i]) || (yh_c[i] == crypto_dh_group14[i] && lt);
	isone = ideal_eq(yh_c, one, 256);
	vp_assert((r == 0) == (macok && lt && !(req && isone)), "accepted exactly if authentic, in range, and not 1 when forward secrecy is required");
	if (macok && !lt)
		vp_witness("out of range");
	if (macok && isone && req)
		vp_witness("one refused");
	if (r == 0)
		vp_witness("accepted");
#endif
	return (0);
}
