/*
 * netev.c: the socket half of the event loop (events_network.c) against a
 * model: NSTEP steps, each an arbitrary registration, cancellation, poll or
 * event fetch on NFD descriptors, with arbitrary poll results.
 */
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>

#include "vp.h"
#include "events.h"
#include "events_internal.h"

#ifndef NFD
#define NFD 3
#endif
#ifndef NSTEP
#define NSTEP 6
#endif
#define NE (2 * NFD)

#ifdef SHAPE
static const char shape[] = SHAPE;	/* The operation of each step. */
#endif
static int reg[NE], rdy[NE];	/* Event 2 * fd + (1 if writing). */
static char recs[NE];
static int freed[NE];		/* Record is allocated (1) or not (0). */
static int hup[NFD];		/* Poll reported an error on the descriptor. */
static int fresh;		/* Nothing happened since the last poll. */
static int npoll, polltimeout, expect_timeout, eintr, interrupted, pollfail;
static int cb(void * c) { (void)c; return (0); }

struct eventrec *
events_mkrec(int (* f)(void *), void * c)
{
	int i = (int)((char *)c - recs);

	vp_assert(f == cb && i >= 0 && i < NE, "the event carries the caller's function and cookie");
	vp_assert(!freed[i], "one record per registered event");
	freed[i] = 1;
	return ((struct eventrec *)c);
}

void
events_freerec(struct eventrec * r)
{
	int i = (int)((char *)r - recs);

	vp_assert(i >= 0 && i < NE && freed[i], "only a live record is freed");
	freed[i] = 0;
}

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
void events_network_selectstats_startclock(void) { }
void events_network_selectstats_stopclock(void) { }
void events_network_selectstats_select(void) { }
#ifdef SHAPE
/*
 * Memory in fixed places: growing an allocation never moves it here (harness
 * "netgrow" uses the real allocator).
 */
static struct { void * r, * w; size_t pos; } sockrecs[NFD];
static struct pollfd pollfds[16];
static size_t sockrecs_n, sockrecs_rl;
struct elasticarray { int x; } ea;
struct elasticarray * elasticarray_init(size_t n, size_t rl) { vp_assert(n <= NFD, "few records"); sockrecs_n = n; sockrecs_rl = rl; return (&ea); }
int elasticarray_resize(struct elasticarray * e, size_t n, size_t rl) { (void)e; vp_assert(n <= NFD && rl <= sizeof(sockrecs[0]), "few records"); sockrecs_n = n; return (0); }
size_t elasticarray_getsize(const struct elasticarray * e, size_t rl) { (void)e; (void)rl; return (sockrecs_n); }
void * elasticarray_get(struct elasticarray * e, size_t pos, size_t rl) { (void)e; (void)rl; vp_assert(pos < sockrecs_n, "record exists"); return (&sockrecs[pos]); }
void elasticarray_free(struct elasticarray * e) { (void)e; }
int elasticarray_append(struct elasticarray * e, const void * b, size_t n, size_t rl) { (void)e; (void)b; (void)n; (void)rl; vp_assert(0, "unused"); return (-1); }
void elasticarray_shrink(struct elasticarray * e, size_t n, size_t rl) { (void)e; (void)n; (void)rl; vp_assert(0, "unused"); }
int elasticarray_truncate(struct elasticarray * e) { (void)e; return (0); }
void * vp_realloc(void * p, size_t n) { vp_assert((p == NULL || p == pollfds) && n <= sizeof(pollfds), "few pollfds"); return (pollfds); }
#endif
int vp_atexit(void (* f)(void)) { (void)f; return (0); }

int
vp_poll(struct pollfd * p, nfds_t n, int timeout)
{
	nfds_t i, j;
	int total = 0, k, bits;

	npoll++;
	polltimeout = timeout;
	if (pollfail) {
		errno = EBADF;
		return (-1);
	}
	if (eintr) {
		eintr = 0;
		errno = EINTR;
		return (-1);
	}
	for (k = 0; k < NFD; k++)
		total += (reg[2 * k] || reg[2 * k + 1]);
	vp_assert(n == (nfds_t)total, "exactly the descriptors with registered events are polled");
	for (k = 0; k < NE; k++)
		rdy[k] = hup[k >> 1] = 0;
	for (i = 0; i < NFD; i++) {
		if (i >= n)
			break;
		vp_assert(p[i].fd >= 0 && p[i].fd < NFD, "polled descriptor has events");
		for (j = 0; j < i; j++)
			vp_assert(p[j].fd != p[i].fd, "each descriptor is polled once");
		k = p[i].fd;
		vp_assert(p[i].events == ((reg[2 * k] ? POLLIN : 0) | (reg[2 * k + 1] ? POLLOUT : 0)), "descriptors are polled for exactly the registered operations");
		bits = vp_u8() & 7;
		p[i].revents = (short)(((bits & 1) ? (p[i].events & POLLIN) : 0) | ((bits & 2) ? (p[i].events & POLLOUT) : 0));
		hup[k] = (bits & 4) != 0;
		if (bits & 4)
			p[i].revents |= (bits & 1) ? POLLHUP : POLLERR;
		rdy[2 * k] = reg[2 * k] && (bits & 5);
		rdy[2 * k + 1] = reg[2 * k + 1] && (bits & 6);
	}
	return (0);
}

static int
isop(int e)
{

	return ((e & 1) ? EVENTS_NETWORK_OP_WRITE : EVENTS_NETWORK_OP_READ);
}

#ifdef SHAPE
static void
regcancel(int op, int e)
{
	int rc;

	if (op == 0) {
		rc = events_network_register(cb, &recs[e], e >> 1, isop(e));
		vp_assert(rc == (reg[e] ? -1 : 0), "registering fails exactly if the event is registered already");
		vp_assert(rc == 0 || errno == EEXIST, "a second registration is reported as such");
		if (!reg[e])
			rdy[e] = 0;
		reg[e] = 1;
	} else if (op == 1) {
		rc = events_network_cancel(e >> 1, isop(e));
		vp_assert(rc == (reg[e] ? 0 : -1), "cancelling fails exactly if there is no such event");
		vp_assert(rc == 0 || errno == ENOENT, "a missing registration is reported as such");
		reg[e] = rdy[e] = 0;
		fresh = 0;
	}
}

static void
step(int op)
{
	volatile sig_atomic_t intr = 0;
	struct eventrec * r;
	int e = vp_u8() & 7, rc, i, any = 0;

	vp_assume(e < NE);
	if (op < 2) {
		for (i = 0; i < NE; i++) {
			if (i == e)
				regcancel(op, i);
		}
	} else if (op == 2) {
		npoll = 0;
		rc = events_network_select(NULL, &intr);
		vp_assert(rc == 0 && npoll == 1 && polltimeout == -1, "one poll");
		fresh = 1;
	} else {
		for (i = 0; i < NE; i++)
			any |= rdy[i];
		if ((r = events_network_get()) == NULL) {
			vp_assert(!(fresh && any), "a ready event is returned");
		} else {
			i = (int)((char *)r - recs);
			vp_assert(i >= 0 && i < NE && freed[i] && reg[i], "only registered events are returned");
			vp_assert(rdy[i] || hup[i >> 1], "only ready events are returned");
			reg[i] = rdy[i] = freed[i] = 0;
		}
		fresh = 0;
	}
}

#endif

#ifdef TIMEOUT
/* Poll timeouts: never shorter than asked for, less than 1 ms longer; EINTR. */
static void
timeouts(int small)
{
	struct timeval tv;
	volatile sig_atomic_t intr = vp_bool();
	long ms;
	int rc, e0;

	if (small)
		tv.tv_sec = (time_t)(vp_u32() & 0x1fffff);
	else
		tv.tv_sec = (time_t)((vp_u64() >> 1) | 0x200000);
	tv.tv_usec = (suseconds_t)(vp_u32() & 0xfffff);
	vp_assume(tv.tv_usec < 1000000);
	pollfail = vp_bool();
	eintr = e0 = vp_bool();
	vp_assert(events_network_register(cb, &recs[0], 0, EVENTS_NETWORK_OP_READ) == 0, "registering works");
	reg[0] = 1;
	rc = events_network_select(&tv, &intr);
	if (pollfail) {
		vp_assert(rc == -1, "a poll failure is reported");
		vp_witness("poll failed");
		return;
	}
	vp_assert(rc == 0, "an interrupted poll is not a failure");
	vp_assert(npoll == ((e0 && !intr) ? 2 : 1), "an interrupted poll is repeated, unless an interrupt was requested");
	vp_assert(polltimeout >= 0, "a finite wait stays finite");
	if (small) {
		ms = polltimeout - (long)tv.tv_sec * 1000;
		vp_assert(polltimeout == 0x7fffffff || (ms >= 0 && ms <= 1000 && ms * 1000 >= tv.tv_usec && ms * 1000 < tv.tv_usec + 1000), "the wait is rounded up to the next millisecond");
		if (tv.tv_sec > 1)
			vp_witness("long wait");
	} else
		vp_assert(polltimeout >= 2000000000 || tv.tv_sec * 1000L <= polltimeout, "a long wait stays long");
	if (!small && tv.tv_sec > 3000000)
		vp_witness("very long wait");
	if (e0 && !intr)
		vp_witness("poll repeated");
}
#endif

#ifdef GROW
/*
 * Growing arrays, with the real elasticarray and allocator, one allocation
 * failing: descriptors in an order that grows both arrays.
 */
static int failat, nfail;
int sim_fail(void) { return (++nfail == failat); }

static void
grow(void)
{
	static const uint8_t order[] = {2, 0, 1, 6, 3, 4, 5, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7};
	volatile sig_atomic_t intr = 0;
	struct eventrec * r;
	size_t i;
	int k, n = 0;

	for (i = 0; i < sizeof(order); i++) {
		k = 2 * order[i] + (int)(i & 1);
		if (events_network_register(cb, &recs[k], order[i], isop(k)) == 0)
			reg[k] = 1, n++;
		else
			vp_assert(nfail >= failat && failat > 0, "registering fails only if memory runs out");
		vp_assert(reg[k] == freed[k], "a failed registration leaves no record");
	}
	vp_assert(n >= (int)sizeof(order) - 1, "a failure does not affect later registrations");
	vp_assert(events_network_select(NULL, &intr) == 0, "select works");
	/* Everything which is registered can be cancelled again. */
	for (i = 0; i < sizeof(order); i++) {
		k = 2 * order[i] + (int)(i & 1);
		vp_assert(events_network_cancel(order[i], isop(k)) == (reg[k] ? 0 : -1), "cancelling works exactly on registered events");
		reg[k] = 0;
		vp_assert(!freed[k], "the record is released");
	}
	vp_assert(events_network_select(NULL, &intr) == 0, "select works");
	vp_assert(events_network_get() == NULL, "no events");
	vp_assert(events_network_cancel(100, EVENTS_NETWORK_OP_READ) == -1 && errno == ENOENT, "no event on a high descriptor");
	vp_assert(events_network_cancel(-1, EVENTS_NETWORK_OP_READ) == -1, "no event on a negative descriptor");
	vp_assert(events_network_register(cb, &recs[0], -1, EVENTS_NETWORK_OP_READ) == -1, "no event on a negative descriptor");
	vp_witness("grown");
}
#endif

int
main(void)
{
#ifdef GROW
	int i, r = vp_u8();

	for (i = 0; i <= GROW; i++) {
		if (r == i) {
			failat = i;
			grow();
			return (0);
		}
	}
#elif defined(TIMEOUT)
	if (vp_bool())
		timeouts(0);
	else
		timeouts(1);
#else
	int i;

	/* Symmetry: the first registrations are in descending order. */
	for (i = NFD - 1; i >= 0; i--) {
		vp_assert(events_network_register(cb, &recs[2 * i], i, EVENTS_NETWORK_OP_READ) == 0, "registering works");
		vp_assert(events_network_register(cb, &recs[2 * i + 1], i, EVENTS_NETWORK_OP_WRITE) == 0, "registering works");
		reg[2 * i] = reg[2 * i + 1] = 1;
	}
	for (i = 0; i < (int)sizeof(shape) - 1; i++)
		step(shape[i] - '0');
	vp_witness("all steps");
#endif
	return (0);
}
