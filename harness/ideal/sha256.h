/*
 * Ideal-functionality replacement for libcperciva/alg/sha256.h, used by the
 * harnesses which reason about what is hashed/MACed rather than about how:
 * HMAC-SHA256, SHA256 and PBKDF2 are uninterpreted functions of their exact
 * inputs (equal inputs give equal outputs, anything else is arbitrary).
 */
#ifndef SHA256_H_
#define SHA256_H_
#include <stddef.h>
#include <stdint.h>

#ifndef IDEAL_MAXMSG
#ifdef SCALE
#define IDEAL_MAXMSG (SCALE + 12)
#else
#define IDEAL_MAXMSG 1036
#endif
#endif

typedef struct {
	size_t len;
	uint8_t data[IDEAL_MAXMSG];
} SHA256_CTX;

typedef struct {
	int live;
	uint8_t key[32];
	size_t len;
	uint8_t data[IDEAL_MAXMSG];
} HMAC_SHA256_CTX;

void SHA256_Init(SHA256_CTX *);
void SHA256_Update(SHA256_CTX *, const void *, size_t);
void SHA256_Final(uint8_t[32], SHA256_CTX *);
void SHA256_Buf(const void *, size_t, uint8_t[32]);
void HMAC_SHA256_Init(HMAC_SHA256_CTX *, const void *, size_t);
void HMAC_SHA256_Update(HMAC_SHA256_CTX *, const void *, size_t);
void HMAC_SHA256_Final(uint8_t[32], HMAC_SHA256_CTX *);
void HMAC_SHA256_Buf(const void *, size_t, const void *, size_t, uint8_t[32]);
void PBKDF2_SHA256(const uint8_t *, size_t, const uint8_t *, size_t,
    uint64_t, uint8_t *, size_t);
#endif
