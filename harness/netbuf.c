/*
 * netbuf.c: the buffered reader (netbuf_read.c): whatever sizes are waited
 * for, arrive and are consumed, the reader presents the received bytes in
 * order, each until it is consumed.  Bytes are identified by where they are:
 * "seg" is where the first unconsumed byte of the stream was last put.
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "alloc.h"
#include "events.h"
#include "network.h"
#include "netbuf.h"

#ifndef NSTEP
#define NSTEP 3
#endif
/* Sizes up to 16 kB, in steps of 512 with one byte more or not. */
static size_t
size(void)
{
	uint16_t x = vp_u16() & 0x3e01;

	return (x);
}
#define FD 7

static uint8_t * seg;
static size_t seglen;
static int rd_pending, im_pending, fired, status;
static uint8_t * rd_buf;
static size_t rd_len, rd_min;
static int (* rd_cb)(void *, ssize_t), (* im_cb)(void *);
static void * rd_c, * im_c;
static char ck;
static int failat, nfail;
int sim_fail(void) { return (++nfail == failat); }
void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

static void
move(uint8_t * d, const uint8_t * s, size_t n)
{

	if (seglen > 0)
		vp_assert(s == seg && n == seglen, "all unconsumed bytes are moved, and nothing else");
	else
		vp_assert(n == 0, "nothing but unconsumed bytes is moved");
#ifdef VP_SYM
	vp_assert(n == 0 || (__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n)), "moved within the buffers");
#else
	memmove(d, s, n);
#endif
	seg = d;
}
void * vp_memcpy(void * d, const void * s, size_t n) { move(d, s, n); return (d); }
void * vp_memmove(void * d, const void * s, size_t n) { move(d, s, n); return (d); }

void *
network_read(int fd, uint8_t * b, size_t buflen, size_t minread, int (* cb)(void *, ssize_t), void * c)
{

	vp_assert(fd == FD && !rd_pending && !im_pending, "one read at a time");
	vp_assert(minread > 0 && minread <= buflen, "asks for some bytes, no more than fit");
	if (seglen > 0)
		vp_assert(b == seg + seglen, "new bytes go after the unconsumed ones");
	else
		seg = b;
#ifdef VP_SYM
	vp_assert(__CPROVER_w_ok(b, buflen), "the read stays within the buffer");
#else
	memset(b, 0x55, buflen);
#endif
	if (sim_fail())
		return (NULL);
	rd_pending = 1;
	rd_buf = b;
	rd_len = buflen;
	rd_min = minread;
	/* (Written like this, the values are constants to the solver.) */
	if (rd_cb != cb)
		rd_cb = cb;
	if (rd_c != c)
		rd_c = c;
	return (&rd_pending);
}

void
network_read_cancel(void * c)
{

	vp_assert(c == &rd_pending && rd_pending, "cancels its own read");
	rd_pending = 0;
}

void *
events_immediate_register(int (* f)(void *), void * c, int prio)
{

	(void)prio;
	vp_assert(!rd_pending && !im_pending, "one event at a time");
	if (sim_fail())
		return (NULL);
	im_pending = 1;
	if (im_cb != f)
		im_cb = f;
	if (im_c != c)
		im_c = c;
	return (&im_pending);
}

void
events_immediate_cancel(void * c)
{

	vp_assert(c == &im_pending && im_pending, "cancels its own event");
	im_pending = 0;
}

static int
cb(void * c, int s)
{

	vp_assert(c == &ck && !fired, "the callback runs once with its cookie");
	vp_assert(!rd_pending && !im_pending, "nothing is pending at the callback");
	fired = 1;
	status = s;
	return (23);
}

/* The reader presents exactly the unconsumed bytes. */
static void
check(struct netbuf_read * R)
{
	uint8_t * data;
	size_t len;

	netbuf_read_peek(R, &data, &len);
	vp_assert(len == seglen, "exactly the received and not yet consumed bytes are available");
	if (len > 0)
		vp_assert(data == seg, "the first available byte is the first unconsumed one");
}

static void step(struct netbuf_read *, int);

static void
fini(struct netbuf_read * R)
{

	netbuf_read_wait_cancel(R);
	vp_assert(!rd_pending && !im_pending, "nothing is pending");
	netbuf_read_free(R);
	vp_assert(vp_alloc_live == 0, "everything is released");
}

/* Consume some of the data and go on. */
static void
consume(struct netbuf_read * R, int k)
{
	size_t n = size();

	check(R);
	vp_assume(n <= seglen);
	netbuf_read_consume(R, n);
	seglen -= n;
	seg += n;
	check(R);
	step(R, k + 1);
}

static void
step(struct netbuf_read * R, int k)
{
	size_t len, n, have = seglen;
	int what, f = nfail;

	if (k == NSTEP) {
		fini(R);
		return;
	}
	len = size();
	fired = 0;
	if (netbuf_read_wait(R, len, cb, &ck)) {
		vp_assert(f < failat && nfail >= failat, "waiting fails only for want of resources");
		vp_assert(!rd_pending && !im_pending && !fired, "nothing is pending after a failure");
		check(R);
		fini(R);
		return;
	}
	vp_assert(!fired, "the callback never runs at once");
	vp_assert(im_pending == (have >= len) && rd_pending == (have < len), "reads exactly if there is not enough data");
	if (rd_pending)
		vp_assert(rd_min <= len - have, "does not wait for more than asked");
	what = vp_u8();
	if (what == 0) {
		netbuf_read_wait_cancel(R);
		vp_assert(!rd_pending && !im_pending && !fired, "cancelling leaves nothing pending and reports nothing");
		check(R);
		step(R, k + 1);
		return;
	}
	if (im_pending) {
		im_pending = 0;
		vp_assert(im_cb(im_c) == 23, "the callback's status is passed on");
		vp_assert(fired && status == 0, "enough data is reported at once");
		if (k == NSTEP - 1)
			vp_witness("enough data");
		consume(R, k);
		return;
	}
	rd_pending = 0;
	if (what == 1) {
		vp_assert(rd_cb(rd_c, 0) == 23, "the callback's status is passed on");
		vp_assert(fired && status == 1, "end of file is reported");
		check(R);
		fini(R);
		return;
	}
	if (what == 2) {
		vp_assert(rd_cb(rd_c, -1) == 23, "the callback's status is passed on");
		vp_assert(fired && status == -1, "an error is reported");
		check(R);
		fini(R);
		return;
	}
	n = size();
	vp_assume(n >= rd_min && n <= rd_len);
	seglen += n;
	vp_assert(rd_cb(rd_c, (ssize_t)n) == 23, "the callback's status is passed on");
	vp_assert(fired && status == 0, "data is reported");
	vp_assert(seglen >= len, "as much data as was asked for");
	if (k == NSTEP - 1 && have > 5)
		vp_witness("more data");
	consume(R, k);
}

static int netbuf_read_wait_cancel_(struct netbuf_read * R) { netbuf_read_wait_cancel(R); return (0); }

static void
all(void)
{
	struct netbuf_read * R;

	if ((R = netbuf_read_init(FD)) == NULL) {
		vp_assert(nfail >= failat && failat > 0 && vp_alloc_live == 0, "setup fails only for want of resources");
		return;
	}
	check(R);
	/* Waits which are cancelled. */
	if (netbuf_read_wait(R, 0, cb, &ck) || netbuf_read_wait_cancel_(R) || netbuf_read_wait(R, 1, cb, &ck)) {
		vp_assert(nfail >= failat && failat > 0, "waiting fails only for want of resources");
		fini(R);
		return;
	}
	netbuf_read_wait_cancel(R);
	step(R, 0);
}

int
main(void)
{
	int i, r = vp_u8();

	for (i = 0; i <= NFAULT; i++) {
		if (r == i) {
			failat = i;
			all();
			return (0);
		}
	}
	return (0);
}
