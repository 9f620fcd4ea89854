/*
 * Histories of packets between a sender's and a receiver's key structure, both
 * made by proto_crypt_mkkeys from the same handshake values, with ideal
 * cryptography (HMAC injective and unforgeable, AES-CTR a keystream per key
 * and packet number).
 *
 * HIST 1: round trip of K packets in one direction.
 * HIST 2: adversary: K arbitrary packets presented after K honest ones were
 *         sent in both directions.
 * HIST 3: nonce use in both directions.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "ideal.h"
#include "proto_crypt.h"
#define N PCRYPT_MAXDSZ

#ifdef NPKT
#define K NPKT
#else
#define K 2
#endif

/* The shared diffie-hellman value: the subject of another property. */
static uint8_t dhkey[CRYPTO_DH_KEYLEN];
int crypto_dh_generate(uint8_t * a, uint8_t * b) { (void)a; (void)b; return (-1); }
int crypto_dh_compute(const uint8_t * a, const uint8_t * b, uint8_t * c) { (void)a; (void)b; memcpy(c, dhkey, CRYPTO_DH_KEYLEN); return (0); }
int crypto_dh_sanitycheck(const uint8_t * a) { (void)a; return (0); }
void SHA256_Init(SHA256_CTX * c) { (void)c; }
void SHA256_Update(SHA256_CTX * c, const void * a, size_t b) { (void)c; (void)a; (void)b; }
void SHA256_Final(uint8_t a[32], SHA256_CTX * c) { (void)c; memset(a, 0, 32); }
void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

struct proto_keys * cl_c, * cl_s, * sv_c, * sv_s;
static uint8_t secret[64];

static void
mkall(void)
{
	uint8_t nc[32], ns[32];
	static uint8_t yh[PCRYPT_YH_LEN], x[PCRYPT_X_LEN];
	int r;

	vp_fillarr(secret);
	vp_fillarr(nc);
	vp_fillarr(ns);
	r = proto_crypt_mkkeys((const struct proto_secret *)secret, nc, ns, yh, x, 0, 0, &cl_c, &cl_s);
	vp_assume(r == 0);
	r = proto_crypt_mkkeys((const struct proto_secret *)secret, ns, nc, yh, x, 0, 1, &sv_c, &sv_s);
	vp_assume(r == 0);
	/* The key derivation is a random function: its 128 bytes are not
	 * periodic, so that the four keys differ. */
	vp_assume(!ideal_eq(&ideal_kdfs[0].dk[0], &ideal_kdfs[0].dk[64], 32));
	vp_assume(!ideal_eq(&ideal_kdfs[0].dk[32], &ideal_kdfs[0].dk[96], 32));
}

static uint8_t plain[K][N], buf[N], pkt[K][PCRYPT_ESZ], rev[PCRYPT_ESZ], adv[PCRYPT_ESZ], out[N];
static size_t lens[K];

int
main(void)
{
	int i;
	size_t j;
	ssize_t r;

	ideal_injective = 1;
	mkall();
#if HIST == 1
	for (i = 0; i < K; i++) {
		lens[i] = vp_srange(1, N);
		vp_fillarr(buf);
		memcpy(plain[i], buf, N);
		proto_crypt_enc(buf, lens[i], adv, cl_c);
		memcpy(pkt[i], adv, PCRYPT_ESZ);
	}
	for (i = 0; i < K; i++) {
		ideal_nks = ideal_nmac = K + i;
		memcpy(adv, pkt[i], PCRYPT_ESZ);
		r = proto_crypt_dec(adv, out, sv_c);
		vp_assert(r == (ssize_t)lens[i], "each packet decrypts to the length that was sent");
		for (j = 0; j < N; j++)
			vp_assert(j >= lens[i] || out[j] == plain[i][j], "each packet decrypts to the data that was sent");
	}
	vp_witness("round trip");
#endif
#if HIST == 2
	int got = 0, accepted = 0, w;
	uint8_t tag[32];

	/* The sender sends K packets; another one goes the other way. */
	for (i = 0; i < K; i++) {
		lens[i] = vp_srange(1, N);
		vp_fillarr(buf);
		memcpy(plain[i], buf, N);
		proto_crypt_enc(buf, lens[i], adv, cl_c);
		memcpy(pkt[i], adv, PCRYPT_ESZ);
	}
	vp_fillarr(buf);
	proto_crypt_enc(buf, vp_srange(1, N), rev, sv_s);

	for (i = 0; i < K; i++) {
		/* The adversary presents anything, e.g. one of those seen. */
		w = vp_range(0, K + 1);
		vp_fillarr(adv);
		if (w < K)
			memcpy(adv, pkt[w], PCRYPT_ESZ);
		else if (w == K)
			memcpy(adv, rev, PCRYPT_ESZ);
		w = ideal_nks = ideal_nmac = K + 1 + i;
		memcpy(tag, &adv[N + 4], 32);
		r = proto_crypt_dec(adv, out, sv_c);
		/*
		 * Unforgeability: what nobody MACed before (any honest MAC
		 * was computed by the first K + 1 calls) does not carry a
		 * valid MAC.
		 */
		{
			int honest = 0, q;
			for (q = 0; q <= K; q++)
				honest |= ideal_macs[w].len == N + 12 &&
				    ideal_eq(ideal_macs[q].key, ideal_macs[w].key, 32) &&
				    ideal_eq(ideal_macs[q].msg, ideal_macs[w].msg, N + 12);
			if (!honest)
				vp_assume(!ideal_eq(ideal_macs[w].out, tag, 32));
		}
		if (r != -1) {
			vp_assert(got < K, "no more packets are accepted than were sent");
			vp_assert(r == (ssize_t)lens[got], "the packet accepted next is the packet sent next");
			for (j = 0; j < N; j++)
				vp_assert(j >= lens[got] || out[j] == plain[got][j], "exactly the sent data is released, in order");
			got++;
			accepted = 1;
		}
	}
	if (got == K)
		vp_witness("all accepted");
	if (!accepted)
		vp_witness("none accepted");
#endif
#if HIST == 3
	int a, b, n;

	/* Interleaved sending in both directions. */
	int dir[K], cnt[2] = { 0, 0 };

	for (i = 0; i < K; i++) {
		size_t len = vp_srange(0, N);

		vp_fillarr(buf);
		dir[i] = vp_bool();
		proto_crypt_enc(buf, len, rev, dir[i] ? cl_c : sv_s);
	}
	vp_assert(ideal_nks == K && ideal_nmac == K, "one keystream and one MAC per packet");
	for (i = 0; i < K; i++) {
		vp_assert(ideal_kss[i].nonce == (uint64_t)cnt[dir[i]],
		    "packet numbers of a direction are 0, 1, 2, ...");
		cnt[dir[i]]++;
		vp_assert(ideal_eq(ideal_kss[i].key, &ideal_kdfs[0].dk[dir[i] ? 0 : 64], 32),
		    "each direction has its own encryption key");
		vp_assert(ideal_eq(ideal_macs[i].key, &ideal_kdfs[0].dk[dir[i] ? 32 : 96], 32),
		    "each direction has its own MAC key");
	}
	for (a = 0; a < K; a++)
		for (b = 0; b < a; b++) {
			vp_assert(ideal_kss[a].nonce != ideal_kss[b].nonce ||
			    !ideal_eq(ideal_kss[a].key, ideal_kss[b].key, 32),
			    "no key and packet number is used twice");
		}
	for (a = 0; a < K; a++) {
		/* MAC binds the same number that selected the keystream. */
		for (n = 0; n < 8; n++)
			vp_assert(ideal_macs[a].msg[N + 4 + n] == (uint8_t)(ideal_kss[a].nonce >> (56 - 8 * n)),
			    "the MAC covers the number that selected the keystream");
		vp_assert(!ideal_eq(ideal_kss[a].key, ideal_macs[a].key, 32) || 
		    ideal_eq(&ideal_kdfs[0].dk[0], &ideal_kdfs[0].dk[32], 32) ||
		    ideal_eq(&ideal_kdfs[0].dk[64], &ideal_kdfs[0].dk[96], 32), "encryption and MAC keys are separate");
	}
	vp_witness("sent");
#endif
	proto_crypt_free(cl_c);
	proto_crypt_free(cl_s);
	proto_crypt_free(sv_c);
	proto_crypt_free(sv_s);
	vp_assert(ideal_aeskeys == 0, "expanded keys are freed");
	return (0);
}
