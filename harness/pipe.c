/*
 * proto_pipe.c: every chunking of the input, every completion, errors, EOF.
 * Data is tracked by position: the encryption stand-ins check that they are
 * given the next unprocessed bytes of the stream and the next free bytes of
 * the output, and the write stand-in that it is given exactly what they made.
 */
#include <sys/socket.h>
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "alloc.h"
#include "simnet.h"
#include "netbuf.h"
#include "proto_crypt.h"
#include "proto_pipe.h"

#ifndef NEV
#define NEV 5
#endif
#ifndef MAXIN
#define MAXIN 10000
#endif

struct netbuf_read { int fd; int waiting; size_t len; int (* cb)(void *, int); void * cookie; };

static struct netbuf_read R;
static uint8_t inbuf[MAXIN];
static size_t avail;		/* Bytes buffered. */
static size_t done_;		/* ... of which processed, in this batch. */
static int consumed, readers;
static uint8_t * outp;		/* Start of the output of the batch. */
static size_t outlen;		/* Bytes of output made. */
static int badpacket;		/* A packet was not authentic. */
static int npk, badat;		/* Packets in this batch; which one is bad (-1: none). */
static int status, called, rc, cancelled;
static int eof, broken, isshut, shuterr;
static int dummykey;
static int failat, nfail;

int
sim_fail(void)
{

	return (++nfail == failat);
}

static int
fail(void)
{

	if (sim_fail()) {
		sim_failed = 1;
		return (1);
	}
	return (0);
}

struct netbuf_read *
netbuf_read_init(int s)
{

	vp_assert(s == SIM_FD0, "data is read from the source");
	if (fail())
		return (NULL);
	R.fd = s;
	readers++;
	return (&R);
}

void
netbuf_read_peek(struct netbuf_read * r, uint8_t ** data, size_t * datalen)
{

	vp_assert(r == &R, "the pipe's own reader");
	*data = inbuf;
	*datalen = avail;
}

int
netbuf_read_wait(struct netbuf_read * r, size_t len, int (* cb)(void *, int), void * cookie)
{

	vp_assert(r == &R && !R.waiting, "one wait at a time");
	vp_assert(!sim_w[1].pending, "output is written before more input is read");
	vp_assert(!eof && !broken, "no reading after the end");
	/* A waiting pipe must be woken as soon as something can be done. */
	vp_assert(len >= 1 && len <= (DECR ? PCRYPT_ESZ : 1), "wait for one packet to decrypt, or for any data to encrypt");
	if (fail())
		return (-1);
	R.waiting = 1;
	R.len = len;
	R.cb = cb;
	R.cookie = cookie;
	return (0);
}

void netbuf_read_wait_cancel(struct netbuf_read * r) { vp_assert(r == &R, "own reader"); R.waiting = 0; }

void
netbuf_read_consume(struct netbuf_read * r, size_t len)
{

	vp_assert(r == &R && len <= avail, "only buffered data is consumed");
	vp_assert(len == done_, "exactly the processed bytes are consumed");
	avail -= len;
	done_ = 0;
	consumed = 1;
}

void
netbuf_read_free(struct netbuf_read * r)
{

	vp_assert(r == &R && !R.waiting && readers == 1, "an idle reader is freed once");
	readers--;
}

void
proto_crypt_enc(uint8_t * in, size_t len, uint8_t out[PCRYPT_ESZ], struct proto_keys * k)
{

	vp_assert(!DECR && k == (struct proto_keys *)(void *)&dummykey, "encryption with the direction's key");
	vp_assert(len >= 1 && len <= PCRYPT_MAXDSZ, "a packet carries 1 to 1024 bytes");
	vp_assert(!consumed && in == &inbuf[done_] && len <= avail - done_, "the next bytes of the stream are encrypted");
	if (npk++ == 0)
		outp = out;
	vp_assert(out == &outp[outlen], "packets are contiguous");
#ifdef VP_SYM
	vp_assert(__CPROVER_w_ok(out, PCRYPT_ESZ), "output space");
#else
	memset(out, 0, PCRYPT_ESZ);
#endif
	done_ += len;
	outlen += PCRYPT_ESZ;
}

ssize_t
proto_crypt_dec(uint8_t in[PCRYPT_ESZ], uint8_t * out, struct proto_keys * k)
{
	size_t n;

	vp_assert(DECR && k == (struct proto_keys *)(void *)&dummykey, "decryption with the direction's key");
	vp_assert(!badpacket, "nothing is decrypted after a bad packet");
	vp_assert(!consumed && in == &inbuf[done_] && PCRYPT_ESZ <= avail - done_, "the next whole packet of the stream is decrypted");
	if (npk++ == 0)
		outp = out;
	vp_assert(out == &outp[outlen], "plaintext is contiguous");
	if (npk - 1 == badat) {
		badpacket = 1;
		return (-1);
	}
	n = (size_t)(vp_u16() & 1023) + 1;
#ifdef VP_SYM
	vp_assert(__CPROVER_w_ok(out, PCRYPT_MAXDSZ), "output space");
#else
	memset(out, 0, n);
#endif
	done_ += PCRYPT_ESZ;
	outlen += n;
	return ((ssize_t)n);
}

int
vp_shutdown(int s, int how)
{

	vp_assert(s == SIM_FD0 + 1 && how == SHUT_WR, "the destination's writing side is shut down");
	vp_assert(eof && !isshut && !broken, "shut down once, at end of input");
	vp_assert(!sim_w[1].pending && outlen == 0, "all output is written before the end of stream is passed on");
	isshut = 1;
	if (shuterr) {
		errno = shuterr;
		return (-1);
	}
	return (0);
}

static int
callback(void * cookie)
{

	vp_assert(cookie == &status, "cookie");
	vp_assert(!called && !cancelled, "the owner is told once");
	vp_assert(!R.waiting && !sim_w[1].pending, "a finished pipe does nothing");
	vp_assert(status == 0 || status == -1, "status 0 or -1");
	called = 1;
	if (status == 0) {
		vp_assert(eof && isshut && !broken && !badpacket, "success means end of input");
		vp_witness("end of stream");
	} else {
		vp_assert(broken || badpacket || shuterr, "failure means a broken connection or a bad packet");
		if (broken)
			vp_witness("broken connection");
	}
	rc = vp_bool() ? 0 : -1;
	return (rc);
}

static void * P;

static void
finish(int r)
{

	if (called) {
		vp_assert(r == rc, "the owner's status is passed on");
	} else {
		vp_assert(r != 0 && (sim_failed || isshut), "the event loop is stopped only for resource failures");
		vp_witness("resource failure");
	}
	if (called) {
		proto_pipe_cancel(P);
		vp_assert(readers == 0 && vp_alloc_live == 0, "everything is freed");
	}
}

static void
batch_bad(int n)
{
	int r;

	badat = n;
	r = (R.cb)(R.cookie, 0);
	if (!badpacket)
		return;
	vp_assert(called && status == -1, "a bad packet breaks the connection");
	vp_assert(!sim_w[1].pending, "nothing is written after a bad packet");
#if DECR
	vp_witness("bad packet");
#endif
	finish(r);
}

static void
step(int ev)
{
	int r, b;

	(void)b;

	vp_assert(R.waiting + sim_w[1].pending == 1, "a pipe either waits for input or writes output");
	if (vp_bool()) {
		cancelled = 1;
		proto_pipe_cancel(P);
		vp_assert(!R.waiting && !sim_w[1].pending && readers == 0 && vp_alloc_live == 0, "cancellation stops and frees everything");
		vp_witness("cancelled");
		return;
	}
	if (R.waiting) {
		if (vp_bool()) {
			R.waiting = 0;
			eof = 1;
			switch (vp_range(0, 5)) {
			case 0: shuterr = 0; break;
			case 1: shuterr = ENOTCONN; break;
			case 2: shuterr = ECONNRESET; break;
			case 3: shuterr = EPIPE; break;
			case 4: shuterr = EINVAL; break;
			default: shuterr = EBADF; break;
			}
			r = (R.cb)(R.cookie, 1);
			vp_assert(isshut, "end of stream is passed on");
			if (shuterr == 0 || shuterr == ENOTCONN || shuterr == ECONNRESET)
				vp_assert(called && status == 0, "end of stream, even if the other side is gone, is a success");
			else if (shuterr == EPIPE)
				vp_assert(called && status == -1, "other errors break the connection");
			finish(r);
			return;
		}
		if (vp_bool()) {
			R.waiting = 0;
			broken = 1;
			r = (R.cb)(R.cookie, -1);
			vp_assert(called && status == -1, "a read error breaks the connection");
			finish(r);
			return;
		}
		if (ev >= NEV)
			return;
		/* More data. */
		avail = (avail & 16383) + (size_t)(vp_u16() & 16383);
		vp_assume(avail >= R.len && avail <= MAXIN);
		R.waiting = 0;
		consumed = npk = 0;
		badat = -1;
		if (DECR && vp_bool()) {
			/* The first, second or last of a batch is not authentic. */
			b = vp_range(0, 7);
			if (b == 0) {
				vp_assume(avail >= PCRYPT_ESZ);
				batch_bad(0);
			} else if (b == 1) {
				vp_assume(avail >= 2 * PCRYPT_ESZ);
				batch_bad(1);
			} else if (b == 7) {
				vp_assume(avail >= 8 * PCRYPT_ESZ);
				batch_bad(7);
			}
			return;
		}
		r = (R.cb)(R.cookie, 0);
		if (nfail >= failat) {
			vp_assert(r == -1, "failure to write stops the event loop");
			finish(r);
			return;
		}
		vp_assert(r == 0 && consumed && !called, "data was processed");
		vp_assert(sim_w[1].pending, "processed data is written");
		vp_assert(outlen > 0 && sim_w[1].wbuf == outp && sim_w[1].len == outlen && sim_w[1].min == outlen, "exactly the output is written");
		if (npk > 1)
			vp_witness("several packets");
		step(ev + 1);
	} else {
		if (vp_bool()) {
			broken = 1;
			r = sim_write_done(1, (ssize_t)vp_srange(0, sim_w[1].len) - 1);
			vp_assert(called && status == -1, "an incomplete write breaks the connection");
			finish(r);
			return;
		}
		if (ev >= NEV)
			return;
		outlen = 0;
		r = sim_write_done(1, (ssize_t)sim_w[1].len);
		if (nfail >= failat) {
			vp_assert(r == -1, "failure to read stops the event loop");
			finish(r);
			return;
		}
		vp_assert(r == 0 && R.waiting && !called, "after writing, wait for more input");
		step(ev + 1);
	}
}

int
main(void)
{
	int k, r = vp_int();

	for (k = 0; k < 8; k++) {
		if (r == k) {
			failat = k ? k : 1000;
			status = 1;
			P = proto_pipe(SIM_FD0, SIM_FD0 + 1, DECR, (struct proto_keys *)(void *)&dummykey, &status, callback, &status);
			if (nfail >= failat) {
				vp_assert(P == NULL && readers == 0 && vp_alloc_live == 0 && !R.waiting, "failure to start is clean");
				vp_witness("could not start");
				return (0);
			}
			vp_assert(P != NULL && status == 1, "a pipe starts");
			step(0);
			return (0);
		}
	}
	return (0);
}
