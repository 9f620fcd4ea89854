/* What the ideal cryptography (ideal.c) recorded, for the harness to judge. */
#ifndef IDEAL_H_
#define IDEAL_H_
#include <stddef.h>
#include <stdint.h>
#include "sha256.h"

#ifndef IDEAL_NMAC
#define IDEAL_NMAC 4
#endif
#ifndef IDEAL_NKS
#define IDEAL_NKS 4
#endif
#ifndef IDEAL_KSLEN
#ifdef SCALE
#define IDEAL_KSLEN (SCALE + 4)
#else
#define IDEAL_KSLEN 1028
#endif
#endif
#ifndef IDEAL_NKDF
#define IDEAL_NKDF 2
#endif
#ifndef IDEAL_KDFSALT
#define IDEAL_KDFSALT 320
#endif

/*
 * The tables are filled in call order.  A harness may move the cursors
 * (ideal_nmac, ideal_nks) forward to keep them constants for the solver where
 * the code under test calls conditionally; unused slots are skipped.
 */
struct ideal_mac {
	int used;
	uint8_t key[32];
	size_t len;
	uint8_t msg[IDEAL_MAXMSG];
	uint8_t out[32];
};
extern struct ideal_mac ideal_macs[IDEAL_NMAC];
extern int ideal_nmac;

struct ideal_ks {
	int used;
	uint8_t key[32];
	size_t keylen;
	uint64_t nonce;
	size_t len;
	uint8_t ks[IDEAL_KSLEN];
};
extern struct ideal_ks ideal_kss[IDEAL_NKS];
extern int ideal_nks;

struct ideal_kdf {
	uint8_t pw[32];
	size_t pwlen;
	uint8_t salt[IDEAL_KDFSALT];
	size_t saltlen;
	uint64_t c;
	size_t dklen;
	uint8_t dk[128];
};
extern struct ideal_kdf ideal_kdfs[IDEAL_NKDF];
extern int ideal_nkdf;

/* Distinct inputs give distinct outputs (collision freedom idealised). */
extern int ideal_injective;

/* Live expanded AES keys. */
extern int ideal_aeskeys;

/* Fail the next AES key expansions (allocation failure)? */
extern int ideal_aes_mayfail;

/* The position observed in long keystreams (IDEAL_OBSERVE). */
extern size_t ideal_observe;

int ideal_eq(const uint8_t *, const uint8_t *, size_t);
#endif
