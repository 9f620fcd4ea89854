/*
 * keyfile.c: the shared secret is the hash of the whole key file, in whatever
 * pieces it is read, or there is none.
 */
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "alloc.h"
#include "sha256.h"
#include "crypto_aesctr.h"
#include "crypto_dh.h"
#include "crypto_verify_bytes.h"
#include "crypto_entropy.h"
#include "proto_crypt.h"

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

static int failat, nalloc;
int sim_fail(void) { return (nalloc++ == failat); }

static int dummyfile, isopen, openfail, isstdin, eof, err, nreads, nclosed, inited, finals;
static size_t hashed, readpos, pending;
static const uint8_t * chunk;
static uint8_t hash[32];
static uint8_t * secret;
#define F ((FILE *)&dummyfile)

FILE *
vp_fopen(const char * p, const char * m)
{

	vp_assert(!isstdin && !isopen && m[0] == 'r', "the key file is opened for reading");
	vp_assert(p[0] == 'k' && p[1] == '\0', "the key file is opened");
	if (openfail)
		return (NULL);
	isopen = 1;
	return (F);
}
static FILE * in(void) { return (isstdin ? stdin : F); }
size_t
vp_fread(void * b, size_t s, size_t n, FILE * f)
{
	int c = vp_range(0, ++nreads > 4 ? 0 : (nreads > 2) ? 1 : 3);
	size_t k;

	vp_assert(f == in() && (isstdin || isopen), "reads from the key file");
	vp_assert(pending == 0, "what was read is hashed before it is overwritten");
	vp_assert(s > 0 && n * s > 0, "reads bytes");
	/* The end stays the end; a read may be tried again after an error. */
	if (eof)
		return (0);
	/* Short counts come with an end of file or error; bytes may come with either. */
	k = (c == 3) ? s * n : vp_srange(0, s * n);
	if (c == 0)
		eof = 1;
	else if (c == 1)
		err = 1;
	else
		vp_assume(k == s * n);
	vp_assume(s == 1 || k % s == 0);
	chunk = b;
	pending = k;
	readpos += k;
	return (k / s);
}
int vp_feof(FILE * f) { vp_assert(f == in(), "of the key file"); return (eof); }
int vp_ferror(FILE * f) { vp_assert(f == in(), "of the key file"); return (err); }
int
vp_fclose(FILE * f)
{

	vp_assert(!isstdin && f == F && isopen, "closes what it opened");
	isopen = 0;
	nclosed++;
	return (vp_bool() ? EOF : 0);
}

void SHA256_Init(SHA256_CTX * c) { (void)c; inited = 1; hashed = 0; pending = 0; }
void
SHA256_Update(SHA256_CTX * c, const void * p, size_t n)
{

	(void)c;
	vp_assert(inited && n <= pending && p == chunk, "what was read is hashed, in order");
	chunk += n;
	pending -= n;
	hashed += n;
}
void
SHA256_Final(uint8_t d[32], SHA256_CTX * c)
{
	int i;

	(void)c;
	vp_assert(inited, "hashes what was started");
	inited = 0;
	secret = d;
	finals++;
	for (i = 0; i < 32; i++)
		d[i] = hash[i];
}
static void
wipe(volatile void * p, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++)
		((volatile uint8_t *)p)[i] = 0;
}
void (* volatile insecure_memzero_ptr)(volatile void *, size_t) = wipe;
void
sim_free(void * p)
{
	size_t i;

	if (p != NULL && p == secret)
		for (i = 0; i < 32; i++)
			vp_assert(((uint8_t *)p)[i] == 0, "a released secret is cleared");
}

/* What else proto_crypt.c needs. */
void HMAC_SHA256_Buf(const void * k, size_t kn, const void * d, size_t n, uint8_t o[32]) { (void)k; (void)kn; (void)d; (void)n; (void)o; }
void PBKDF2_SHA256(const uint8_t * a, size_t b, const uint8_t * c, size_t d, uint64_t e, uint8_t * f, size_t g) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; }
void HMAC_SHA256_Init(HMAC_SHA256_CTX * c, const void * k, size_t n) { (void)c; (void)k; (void)n; }
void HMAC_SHA256_Update(HMAC_SHA256_CTX * c, const void * k, size_t n) { (void)c; (void)k; (void)n; }
void HMAC_SHA256_Final(uint8_t d[32], HMAC_SHA256_CTX * c) { (void)c; (void)d; }
int crypto_dh_generate(uint8_t * a, uint8_t * b) { (void)a; (void)b; return (0); }
int crypto_dh_compute(const uint8_t * a, const uint8_t * b, uint8_t * c) { (void)a; (void)b; (void)c; return (0); }
int crypto_dh_sanitycheck(const uint8_t * a) { (void)a; return (0); }
uint8_t crypto_verify_bytes(const uint8_t * a, const uint8_t * b, size_t n) { (void)a; (void)b; (void)n; return (0); }
struct crypto_aes_key * crypto_aes_key_expand(const uint8_t * k, size_t n) { (void)k; (void)n; return (NULL); }
void crypto_aes_key_free(struct crypto_aes_key * k) { (void)k; }
void crypto_aesctr_buf(const struct crypto_aes_key * k, uint64_t n, const uint8_t * i, uint8_t * o, size_t l) { (void)k; (void)n; (void)i; (void)o; (void)l; }

int
main(void)
{
	struct proto_secret * K;
	size_t i;
	char name[2] = "k";

#ifdef VP_SYM
	static int dummystdin;
	stdin = (FILE *)&dummystdin;
#endif
	vp_fillarr(hash);
	isstdin = vp_bool();
	openfail = !isstdin && vp_bool();
	failat = vp_range(-1, 0);
	if (isstdin)
		name[0] = '-';
	K = proto_crypt_secret(name);
	vp_assert(!isopen && nclosed == (!isstdin && !openfail && failat != 0), "the key file is closed");
	vp_assert(!inited, "the hash state is cleared");
	if (K != NULL) {
		vp_assert(eof && pending == 0 && hashed == readpos && finals == 1, "the secret covers the whole file");
		for (i = 0; i < 32; i++)
			vp_assert(((uint8_t *)K)[i] == hash[i], "the secret is the hash of the file");
		proto_crypt_secret_free(K);
		vp_witness("secret");
	} else {
		vp_assert(openfail || failat == 0 || err, "a readable file is accepted");
		vp_witness("no secret");
	}
	proto_crypt_secret_free(NULL);
	vp_assert(vp_alloc_live == 0, "everything is released");
	return (0);
}
