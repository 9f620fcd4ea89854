/*
 * proto_crypt_enc / proto_crypt_dec against the packet format of DESIGN.md,
 * with HMAC and AES-CTR as uninterpreted functions.
 *
 * MODE 1: one encryption, any length 0..N, any packet number.
 * MODE 2: one decryption of arbitrary 1060 bytes, any packet number.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "ideal.h"
#include "proto_crypt.h"
#define N PCRYPT_MAXDSZ

#ifndef BLACKBOX
#include "proto_crypt.c"
#endif

/* Not the subject. */
int crypto_dh_generate(uint8_t * a, uint8_t * b) { (void)a; (void)b; return (-1); }
int crypto_dh_compute(const uint8_t * a, const uint8_t * b, uint8_t * c) { (void)a; (void)b; (void)c; return (-1); }
int crypto_dh_sanitycheck(const uint8_t * a) { (void)a; return (0); }
void SHA256_Init(SHA256_CTX * c) { (void)c; }
void SHA256_Update(SHA256_CTX * c, const void * a, size_t b) { (void)c; (void)a; (void)b; }
void SHA256_Final(uint8_t a[32], SHA256_CTX * c) { (void)c; (void)a; }
void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

static struct proto_keys *
mk(uint64_t * pnum, uint8_t aes[32], uint8_t mac[32])
{
#ifndef BLACKBOX
	uint8_t kb[64];
	struct proto_keys * k;

	vp_fillarr(kb);
	k = mkkeypair(kb);
	vp_assume(k != NULL);
	*pnum = k->pnum = vp_u64();
	memcpy(aes, kb, 32);
	memcpy(mac, &kb[32], 32);
	return (k);
#endif
}

static uint8_t obuf[PCRYPT_ESZ], ibuf[N], ibuf0[N], pkt0[PCRYPT_ESZ];
static uint8_t outb[N], outb0[N], exp_[(N + 4)];

static void
num8(uint8_t b[8], uint64_t v)
{
	int i;

	for (i = 7; i >= 0; i--) {
		b[i] = (uint8_t)(v & 0xff);
		v >>= 8;
	}
}

int
main(void)
{
	uint64_t pnum;
	uint8_t aes[32], mac[32], nb[8];
	struct proto_keys * k = mk(&pnum, aes, mac);
	size_t i;

	num8(nb, pnum);
	size_t j = vp_srange(0, (N - 1));	/* an arbitrary position */
	size_t jm = vp_srange(0, (N + 3));
	ideal_observe = j;
#if MODE == 1
	#ifdef LEN
	size_t len = LEN;
#else
	size_t len = vp_srange(0, N);
#endif


	vp_fillarr(ibuf);
	memcpy(ibuf0, ibuf, N);
	proto_crypt_enc(ibuf, len, obuf, k);

	/* One keystream, for this packet's number, under the encryption key. */
	vp_assert(ideal_nks == 1 && ideal_kss[0].nonce == pnum, "keystream of this packet number");
	vp_assert(ideal_kss[0].keylen == 32 && ideal_eq(ideal_kss[0].key, aes, 32), "keystream of the encryption key");

	/* Data, zero padding, length -- all encrypted. */
	vp_assert((obuf[j] ^ ideal_kss[0].ks[j]) == (j < len ? ibuf0[j] : 0), "ciphertext is data then zero padding");
	vp_assert((uint8_t)(obuf[N] ^ ideal_kss[0].ks[N]) == 0, "length byte 0");
	vp_assert((uint8_t)(obuf[(N + 1)] ^ ideal_kss[0].ks[(N + 1)]) == 0, "length byte 1");
	vp_assert((uint8_t)(obuf[(N + 2)] ^ ideal_kss[0].ks[(N + 2)]) == (uint8_t)(len >> 8), "length byte 2");
	vp_assert((uint8_t)(obuf[(N + 3)] ^ ideal_kss[0].ks[(N + 3)]) == (uint8_t)len, "length byte 3");

	/* MAC over ciphertext and packet number, under the MAC key. */
	vp_assert(ideal_nmac == 1 && ideal_macs[0].len == (N + 12), "one MAC over ciphertext and packet number");
	vp_assert(ideal_eq(ideal_macs[0].key, mac, 32), "MAC key");
	vp_assert(ideal_macs[0].msg[jm] == obuf[jm], "MAC covers the ciphertext");
	vp_assert(ideal_eq(&ideal_macs[0].msg[(N + 4)], nb, 8), "MAC covers the packet number");
	vp_assert(ideal_eq(&obuf[(N + 4)], ideal_macs[0].out, 32), "MAC is appended");

	vp_assert(k->pnum == (uint64_t)(pnum + 1), "the packet number advances by one");
	vp_witness("encrypted");
#endif
#if MODE == 2
	ssize_t r;
	size_t len;

	vp_fillarr(obuf);
	memcpy(pkt0, obuf, PCRYPT_ESZ);
	vp_fillarr(outb);
	memcpy(outb0, outb, N);
	r = proto_crypt_dec(obuf, outb, k);

	vp_assert(ideal_nmac == 1 && ideal_macs[0].len == (N + 12), "one MAC over ciphertext and packet number");
	vp_assert(ideal_eq(ideal_macs[0].key, mac, 32), "MAC key");
	vp_assert(ideal_macs[0].msg[jm] == pkt0[jm], "MAC covers the ciphertext");
	vp_assert(ideal_eq(&ideal_macs[0].msg[(N + 4)], nb, 8), "MAC covers the packet number");
	if (!ideal_eq(&pkt0[(N + 4)], ideal_macs[0].out, 32)) {
		vp_assert(r == -1, "a packet with a wrong MAC is rejected");
		vp_assert(outb[j] == outb0[j], "nothing is released from a rejected packet");
		vp_assert(ideal_nks == 0, "a packet with a wrong MAC is not decrypted");
		vp_assert(k->pnum == pnum, "a packet with a wrong MAC does not advance the packet number");
		vp_witness("wrong MAC");
	} else {
		vp_assert(ideal_nks == 1 && ideal_kss[0].nonce == pnum, "keystream of this packet number");
		vp_assert(ideal_kss[0].keylen == 32 && ideal_eq(ideal_kss[0].key, aes, 32), "keystream of the encryption key");
		exp_[j] = pkt0[j] ^ ideal_kss[0].ks[j];
		for (i = N; i < (N + 4); i++)
			exp_[i] = pkt0[i] ^ ideal_kss[0].ks[i];
		len = ((size_t)exp_[N] << 24) | ((size_t)exp_[(N + 1)] << 16) |
		    ((size_t)exp_[(N + 2)] << 8) | exp_[(N + 3)];
		if (len == 0 || len > N) {
			vp_assert(r == -1, "an authentic packet with an invalid length is rejected");
			vp_assert(outb[j] == outb0[j], "nothing is released from a rejected packet");
			vp_witness("bad length");
		} else {
			vp_assert(r == (ssize_t)len, "the length of the data is returned");
			vp_assert(k->pnum == (uint64_t)(pnum + 1), "the packet number advances by one");
			vp_assert(outb[j] == (j < len ? exp_[j] : outb0[j]), "exactly the packet's data is released");
			vp_witness("accepted");
		}
	}
#endif
	return (0);
}
