/*
 * proto_handshake.c driven by every order of completions.
 *
 * HS 1: one end against an arbitrary network and peer; any operation may
 *       fail or be cut short, the handshake may be cancelled at any point.
 * HS 2: two ends talking to each other over reliable channels.
 */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "alloc.h"
#include "simnet.h"
#include "proto_crypt.h"
#include "proto_handshake.h"
#include "crypto_entropy.h"

#ifndef NEV
#define NEV 6
#endif

struct proto_keys { int end, which; };

static struct end {
	int decr, nopfs, requirepfs;
	uint8_t nonce_l[32], nonce_r[32];	/* Ours; as received. */
	uint8_t mac_l[32], mac_r[32];		/* From the dhmac step. */
	uint8_t yh_l[PCRYPT_YH_LEN], yh_r[PCRYPT_YH_LEN], x[PCRYPT_X_LEN];
	int nentropy, ndhmac, ngen, nvalidate, valid, nmkkeys;
	int nread, nwritten;			/* Messages. */
	int called, ok, cancelled, rc, dead;
	struct proto_keys * c, * s;
} e[2];
static int cur;			/* Which end is running. */
static struct proto_keys thekeys[2][2];
static int dummyK;
#define K ((const struct proto_secret *)(const void *)&dummyK)
static int resourcefail;
static int validity[2];	/* Will the peer's message be found valid? */

/*
 * The schedule is explored as a tree: each choice is a branch whose
 * continuation runs inside it, so that the state on a branch stays constant
 * (data stays symbolic) and only verdicts are merged.
 */
static int
same(const uint8_t * a, const uint8_t * b, size_t n)
{
	size_t i;
	uint8_t d = 0;

	for (i = 0; i < n; i++)
		d |= (uint8_t)(a[i] ^ b[i]);
	return (d == 0);
}

int
crypto_entropy_read(uint8_t * buf, size_t len)
{
	struct end * E = &e[cur];

	vp_assert(len == 32, "a nonce is 256 random bits");
	vp_assert(E->nentropy == 0, "one nonce per connection");
	if (sim_fail()) {
		resourcefail = 1;
		return (-1);
	}
	E->nentropy++;
	memcpy(buf, E->nonce_l, 32);
	return (0);
}

void
proto_crypt_dhmac(const struct proto_secret * k, const uint8_t nl[PCRYPT_NONCE_LEN], const uint8_t nr[PCRYPT_NONCE_LEN],
    uint8_t ml[PCRYPT_DHMAC_LEN], uint8_t mr[PCRYPT_DHMAC_LEN], int decr)
{
	struct end * E = &e[cur];

	vp_assert(k == K && !decr == !E->decr, "MAC keys are derived from the shared secret, in the right role");
	vp_assert(E->nread == 1 && E->nwritten >= 1, "MAC keys are derived once both nonces have been exchanged");
	vp_assert(same(nl, E->nonce_l, 32) && same(nr, E->nonce_r, 32), "MAC keys are derived from the nonces on the wire");
	E->ndhmac++;
	memcpy(ml, E->mac_l, 32);
	memcpy(mr, E->mac_r, 32);
}

int
proto_crypt_dh_validate(const uint8_t yh[PCRYPT_YH_LEN], const uint8_t m[PCRYPT_DHMAC_LEN], int req)
{
	struct end * E = &e[cur];

	vp_assert(E->ndhmac == 1 && E->nread == 2, "validation of a received message");
	vp_assert(!req == !E->requirepfs, "the forward-secrecy requirement is enforced");
	vp_assert(same(yh, E->yh_r, PCRYPT_YH_LEN), "the received message is validated");
	vp_assert(same(m, E->mac_r, 32), "the message is validated under the peer's MAC key");
	E->nvalidate++;
	E->valid = validity[cur];
	return (E->valid ? 0 : -1);
}

int
proto_crypt_dh_generate(uint8_t yh[PCRYPT_YH_LEN], uint8_t x[PCRYPT_X_LEN], const uint8_t m[PCRYPT_DHMAC_LEN], int nopfs)
{
	struct end * E = &e[cur];

	vp_assert(E->ndhmac == 1 && E->ngen == 0, "one diffie-hellman value, after the MAC keys");
	vp_assert(same(m, E->mac_l, 32) && !nopfs == !E->nopfs, "the value is authenticated with the local MAC key");
	if (sim_fail()) {
		resourcefail = 1;
		return (-1);
	}
	E->ngen++;
	memcpy(yh, E->yh_l, PCRYPT_YH_LEN);
	memcpy(x, E->x, PCRYPT_X_LEN);
	return (0);
}

int
proto_crypt_mkkeys(const struct proto_secret * k, const uint8_t nl[PCRYPT_NONCE_LEN], const uint8_t nr[PCRYPT_NONCE_LEN],
    const uint8_t yh[PCRYPT_YH_LEN], const uint8_t x[PCRYPT_X_LEN], int nopfs, int decr, struct proto_keys ** c, struct proto_keys ** s)
{
	struct end * E = &e[cur];

	vp_assert(E->nvalidate == 1 && E->valid, "keys are derived only after the peer's message was found valid");
	vp_assert(E->ngen == 1 && E->nwritten == 2, "keys are derived after our own value was sent");
	vp_assert(k == K && !decr == !E->decr && !nopfs == !E->nopfs, "keys are derived from the shared secret, in the right role");
	vp_assert(same(nl, E->nonce_l, 32) && same(nr, E->nonce_r, 32), "keys are derived from the exchanged nonces");
	vp_assert(same(yh, E->yh_r, PCRYPT_YH_LEN), "keys are derived from the message which was validated");
	vp_assert(same(x, E->x, PCRYPT_X_LEN), "keys are derived from the local secret");
	if (sim_fail()) {
		resourcefail = 1;
		return (-1);
	}
	E->nmkkeys++;
	*c = &thekeys[cur][0];
	*s = &thekeys[cur][1];
	return (0);
}

static int
done(void * cookie, struct proto_keys * c, struct proto_keys * s)
{
	struct end * E = cookie;

	vp_assert(E == &e[cur], "the callback gets its cookie");
	vp_assert(!E->called, "the callback is called once");
	vp_assert(!E->cancelled, "no callback after cancellation");
	vp_assert(!sim_r[cur].pending && !sim_w[cur].pending, "nothing is in progress when the handshake ends");
	E->called = 1;
	E->c = c;
	E->s = s;
	if (c != NULL || s != NULL) {
		vp_assert(E->nmkkeys == 1 && c == &thekeys[cur][0] && s == &thekeys[cur][1], "the derived keys are delivered, client to server first");
		E->ok = 1;
	}
	E->rc = vp_bool() ? 0 : -1;
	return (E->rc);
}

/* A request was made: check that it is what the protocol allows now. */
static void
checkpending(int i)
{
	struct end * E = &e[i];

	if (E->called || E->cancelled || E->dead)
		return;
	vp_assert(sim_r[i].pending || sim_w[i].pending, "an unfinished handshake is waiting for something");
	if (sim_r[i].pending) {
		if (E->nread == 0)
			vp_assert(sim_r[i].len == 32 && sim_r[i].min == 32, "exactly the 32-byte nonce is read");
		else
			vp_assert(E->nread == 1 && sim_r[i].len == PCRYPT_YH_LEN && sim_r[i].min == PCRYPT_YH_LEN, "exactly the diffie-hellman message is read");
	}
	if (sim_w[i].pending) {
		vp_assert(sim_w[i].len == sim_w[i].min, "messages are sent in full");
		if (E->nwritten == 0) {
			vp_assert(sim_w[i].len == 32, "the nonce is sent first");
			vp_assert(same(sim_w[i].wbuf, E->nonce_l, 32), "the random nonce is sent");
		} else {
			vp_assert(E->nwritten == 1 && sim_w[i].len == PCRYPT_YH_LEN && E->ngen == 1, "the diffie-hellman message is sent second");
			vp_assert(same(sim_w[i].wbuf, E->yh_l, PCRYPT_YH_LEN), "the generated message is sent");
			vp_assert(E->nread >= 1, "the peer's nonce is received first");
			if (E->decr)
				vp_assert(E->nvalidate == 1 && E->valid, "the server sends its value only to an authenticated client");
		}
	}
}


#if HS == 1
static int failat, nfail;
int
sim_fail(void)
{

	return (++nfail == failat);
}

static void * H;

static void
finish(int rc, int broken)
{

	if (e[0].called) {
		vp_assert(rc == e[0].rc, "the status of the callback is passed on");
		vp_assert(vp_alloc_live == 0, "the handshake's memory is freed");
		if (e[0].ok) {
			vp_assert(!broken, "keys are only delivered over a working connection");
			vp_witness("keys");
		} else {
			vp_assert(broken || (e[0].nvalidate == 1 && !e[0].valid), "an honest handshake does not fail");
			if (!broken)
				vp_witness("invalid message");
			else
				vp_witness("broken connection");
		}
	} else {
		vp_assert(!broken, "a broken connection ends the handshake");
		vp_assert(rc != 0 && (sim_failed || resourcefail), "the event loop is stopped only if a resource failed");
		vp_witness("resource failure");
	}
}

static void
step(int ev)
{
	int rc;

	vp_assert(ev < 4 + 1, "a handshake takes four network operations");
	checkpending(0);
	if (vp_bool()) {
		proto_handshake_cancel(H);
		e[0].cancelled = 1;
		vp_assert(!sim_r[0].pending && !sim_w[0].pending, "cancellation stops everything");
		vp_assert(vp_alloc_live == 0, "the handshake's memory is freed");
		vp_witness("cancelled");
		return;
	}
	if (sim_r[0].pending && vp_bool()) {
		if (vp_bool()) {
			finish(sim_read_done(0, (ssize_t)vp_srange(0, sim_r[0].len) - 1), 1);
			return;
		}
		if (e[0].nread == 0) {
			vp_fillarr(e[0].nonce_r);
			memcpy(sim_r[0].rbuf, e[0].nonce_r, 32);
		} else {
			vp_fillarr(e[0].yh_r);
			memcpy(sim_r[0].rbuf, e[0].yh_r, PCRYPT_YH_LEN);
		}
		e[0].nread++;
		rc = sim_read_done(0, (ssize_t)sim_r[0].len);
		if (e[0].called || failat <= nfail)
			finish(rc, 0);
		else {
			vp_assert(rc == 0, "the event loop goes on");
			step(ev + 1);
		}
	} else {
		vp_assume(sim_w[0].pending);
		if (!sim_w[0].pending)
			return;
		if (vp_bool()) {
			finish(sim_write_done(0, (ssize_t)vp_srange(0, sim_w[0].len) - 1), 1);
			return;
		}
		e[0].nwritten++;
		rc = sim_write_done(0, (ssize_t)sim_w[0].len);
		if (e[0].called || failat <= nfail)
			finish(rc, 0);
		else {
			vp_assert(rc == 0, "the event loop goes on");
			step(ev + 1);
		}
	}
}

static void
run(void)
{

	if (failat == 0)
		failat = 1000;
	H = proto_handshake(SIM_FD0, e[0].decr, e[0].nopfs, e[0].requirepfs, K, done, &e[0]);
	if (failat <= nfail) {
		vp_assert(H == NULL, "failure to start is reported");
		vp_assert(!sim_r[0].pending && !sim_w[0].pending, "nothing is left in progress");
		vp_assert(vp_alloc_live == 0, "nothing is leaked");
		vp_witness("could not start");
		return;
	}
	vp_assert(H != NULL, "a handshake starts");
	vp_assert(e[0].nentropy == 1, "a nonce is drawn for this connection");
	vp_assert(sim_w[0].pending && sim_r[0].pending, "the nonces are exchanged first");
	step(0);
}

int
main(void)
{
	int k, r = vp_int();

	e[0].nopfs = vp_int();
	e[0].requirepfs = vp_int();
	vp_fillarr(e[0].nonce_l);
	vp_fillarr(e[0].mac_l);
	vp_fillarr(e[0].mac_r);
	vp_fillarr(e[0].yh_l);
	vp_fillarr(e[0].x);
	e[0].decr = DECR;
	/* Which fallible call fails (0: none). */
	for (k = 0; k < 9; k++) {
		if (r == k) {
			failat = k;
			if (vp_bool()) {
				validity[0] = 1;
				run();
			} else {
				validity[0] = 0;
				run();
			}
			return (0);
		}
	}
	return (0);
}
#else
int
sim_fail(void)
{

	return (0);
}

static uint8_t wire[2][2][32];
static int sent[2];

static void
step(int ev)
{
	int i, n, rc, can = 0;

	/* Someone can go on. */
	for (i = 0; i < 2; i++) {
		can |= sim_w[i].pending;
		can |= sim_r[i].pending && sent[!i] > e[i].nread;
		can |= sim_r[i].pending && e[!i].called;
	}
	if (!can) {
		vp_assert(e[0].called && e[1].called, "the two ends never wait for each other");
		if (validity[0] && validity[1]) {
			vp_assert(e[0].ok && e[1].ok, "two honest ends get keys");
			vp_witness("both have keys");
		} else {
			vp_assert(!e[0].ok, "the client gets no keys if either end refuses");
			vp_assert(!e[1].ok || validity[1], "the server gets no keys if it refuses");
			vp_witness("refused");
		}
		return;
	}
	vp_assert(ev < 9, "a handshake takes eight network operations");
	for (i = 0; i < 2; i++) {
		if (sim_w[i].pending && vp_bool()) {
			cur = i;
			n = e[i].nwritten++;
			vp_assert(n < 2, "two messages");
			memcpy(wire[i][n], sim_w[i].wbuf, n == 0 ? 32 : PCRYPT_YH_LEN);
			sent[i]++;
			rc = sim_write_done(i, n == 0 ? 32 : PCRYPT_YH_LEN);
			vp_assert(rc == 0 || e[i].called, "no failure");
			checkpending(i);
			step(ev + 1);
			return;
		}
		if (sim_r[i].pending && sent[!i] > e[i].nread && vp_bool()) {
			cur = i;
			n = e[i].nread++;
			if (n == 0)
				memcpy(e[i].nonce_r, wire[!i][0], 32);
			else
				memcpy(e[i].yh_r, wire[!i][1], PCRYPT_YH_LEN);
			memcpy(sim_r[i].rbuf, wire[!i][n], n == 0 ? 32 : PCRYPT_YH_LEN);
			rc = sim_read_done(i, n == 0 ? 32 : PCRYPT_YH_LEN);
			vp_assert(rc == 0 || e[i].called, "no failure");
			checkpending(i);
			step(ev + 1);
			return;
		}
		if (sim_r[i].pending && sent[!i] <= e[i].nread && e[!i].called && vp_bool()) {
			/* The other end gave up and closed. */
			cur = i;
			sim_read_done(i, 0);
			step(ev + 1);
			return;
		}
	}
}

int
main(void)
{
	int i, c = vp_range(0, 3);

	for (i = 0; i < 2; i++) {
		e[i].decr = i;
		e[i].nopfs = vp_int();
		e[i].requirepfs = vp_int();
	}
	vp_fillarr(e[0].nonce_l);
	vp_fillarr(e[0].mac_l);
	vp_fillarr(e[0].mac_r);
	vp_fillarr(e[0].yh_l);
	vp_fillarr(e[0].x);
	vp_fillarr(e[1].nonce_l);
	vp_fillarr(e[1].yh_l);
	vp_fillarr(e[1].x);
	memcpy(e[1].mac_l, e[0].mac_r, 32);
	memcpy(e[1].mac_r, e[0].mac_l, 32);
	for (i = 0; i < 4; i++) {
		if (c == i) {
			validity[0] = i & 1;
			validity[1] = i >> 1;
			for (cur = 0; cur < 2; cur++) {
				if (proto_handshake(SIM_FD0 + cur, e[cur].decr, e[cur].nopfs, e[cur].requirepfs, K, done, &e[cur]) == NULL) {
					vp_assert(0, "a handshake starts");
					return (0);
				}
			}
			step(0);
			return (0);
		}
	}
	return (0);
}
#endif
