/*
 * netio.c: asynchronous reads, writes and accepts (network_read.c,
 * network_write.c, network_accept.c) for every sequence of socket results.
 */
#include <sys/socket.h>

#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "alloc.h"
#include "events.h"
#include "network.h"

#ifndef NSTEP
#define NSTEP 5
#endif
#define FD 7
#define KREAD 1
#define KWRITE 2
#define KACCEPT 3

static uint8_t buf[256];
static size_t buflen, minlen, total;
static int regd, regfail, regfailed, nosig;
static int (* ev_f)(void *);
static void * ev_c;
static int done, want, wantval, incb, cbrc, inio;
static char ck;
void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

int
events_network_register(int (* f)(void *), void * c, int s, int op)
{

	vp_assert(s == FD && op == (KIND == KWRITE ? EVENTS_NETWORK_OP_WRITE : EVENTS_NETWORK_OP_READ), "waits for the right operation on the right descriptor");
	vp_assert(!regd, "one registration at a time");
	if (regfail > 0 && --regfail == 0) {
		regfailed = 1;
		return (-1);
	}
	regd = 1;
	ev_f = f;
	ev_c = c;
	return (0);
}

int
events_network_cancel(int s, int op)
{

	vp_assert(s == FD && op == (KIND == KWRITE ? EVENTS_NETWORK_OP_WRITE : EVENTS_NETWORK_OP_READ) && regd, "cancels its own registration");
	regd = 0;
	return (0);
}

static int
error(void)
{
	static const int e[] = {EAGAIN, EINTR, ECONNABORTED, ECONNRESET, EPIPE, EBADF, EMFILE, ENETDOWN};
	int i = vp_u8() & 7;

	errno = e[i];
	if (i < ((KIND == KACCEPT) ? 3 : 2))
		return (0);
	want = 1;
	wantval = -1;
	return (-1);
}

#if KIND == KACCEPT
int
vp_accept(int s, struct sockaddr * sa, socklen_t * len)
{
	int r;

	vp_assert(s == FD && sa == NULL && len == NULL && !want, "accepts on the listening socket");
	inio++;
	r = vp_u8();
	if (r & 128) {
		error();
		return (-1);
	}
	want = 1;
	wantval = r;
	return (r);
}
static int
cb(void * c, int s)
{

	vp_assert(c == &ck && !done, "the callback runs once with its cookie");
	vp_assert(want && s == wantval, "the accepted socket or the failure is reported");
	vp_assert(!regd, "no wait is left over");
	done = 1;
	cbrc = (int8_t)vp_u8();
	return (cbrc);
}
#else
static ssize_t
io(int s, const void * p, size_t n, int flags)
{
	size_t len = vp_u8();

	vp_assert(s == FD && !want, "uses the right descriptor, not after the end");
	vp_assert((const uint8_t *)p == &buf[total] && n == buflen - total, "continues where the last one ended and stays within the buffer");
#if KIND == KWRITE
	vp_assert(flags & MSG_NOSIGNAL, "a broken connection raises no signal");
#endif
	inio++;
	if (len == 0) {
		error();
		return (-1);
	}
#if KIND == KREAD
	if (len == 255) {
		want = 1;
		wantval = 0;
		return (0);
	}
#endif
	vp_assume(len <= n);
	total += len;
	if (total >= minlen) {
		want = 1;
		wantval = (int)total;
	}
	return ((ssize_t)len);
}
ssize_t vp_recv(int s, void * p, size_t n, int flags) { return (io(s, p, n, flags)); }
ssize_t vp_send(int s, const void * p, size_t n, int flags) { return (io(s, p, n, flags)); }
static int
cb(void * c, ssize_t n)
{

	vp_assert(c == &ck && !done, "the callback runs once with its cookie");
	if (regfailed)
		vp_assert(n == -1, "failure to wait is reported");
	else
		vp_assert(want && n == wantval, "the number of bytes, end of file or failure is reported, as soon as it is known");
	vp_assert(!regd, "no wait is left over");
	done = 1;
	cbrc = (int8_t)vp_u8();
	return (cbrc);
}
#endif

int
main(void)
{
	void * C;
	int i, rc;

	buflen = vp_u8();
	minlen = vp_u8();
	vp_assume(buflen > 0 && minlen <= buflen);
	regfail = vp_u8() & 7;
	vp_alloc_mayfail = 1;
#if KIND == KREAD
	C = network_read(FD, buf, buflen, minlen, cb, &ck);
#elif KIND == KWRITE
	C = network_write(FD, buf, buflen, minlen, cb, &ck);
#else
	C = network_accept(FD, cb, &ck);
#endif
	vp_alloc_mayfail = 0;
	if (C == NULL) {
		vp_assert(vp_alloc_failed || regfailed, "starting fails only for want of resources");
		vp_assert(!regd && !done && vp_alloc_live == 0, "nothing remains after a failure to start");
		vp_witness("failed to start");
		return (0);
	}
	vp_assert(regd && inio == 0 && !done, "nothing happens before the socket is ready");
	for (i = 0; i < NSTEP; i++) {
		if (vp_bool())
			break;
		regd = 0;
		rc = ev_f(ev_c);
		vp_assert(inio == i + 1, "one attempt for each readiness");
		if (done) {
			vp_assert(rc == cbrc, "the callback's status is passed on");
			vp_assert(vp_alloc_live == 0, "everything is released");
#if KIND != KACCEPT
			if (total > 2 && i == 2)
				vp_witness("done in three steps");
#endif
			if (i == 4)
				vp_witness("done in five steps");
			return (0);
		}
		vp_assert(!want, "results are not held back");
#if KIND == KACCEPT
		/* The caller ends the program on failure. */
		if (regfailed) {
			vp_assert(rc != 0, "failure to wait is reported");
			return (0);
		}
#endif
		vp_assert(rc == 0 && regd, "otherwise it goes on waiting");
	}
	/* Cancel. */
#if KIND == KREAD
	network_read_cancel(C);
#elif KIND == KWRITE
	network_write_cancel(C);
#else
	network_accept_cancel(C);
#endif
	vp_assert(!regd && !done && vp_alloc_live == 0, "cancelling leaves nothing and reports nothing");
	vp_witness("cancelled");
	return (0);
}
