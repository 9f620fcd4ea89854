/*
 * evrun.c: one run of the event loop (events.c) with the three event sources
 * as arbitrary environments: what runs, in which order, and when it stops.
 */
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>

#include "vp.h"
#include "events.h"
#include "events_internal.h"

#ifndef NADD
#define NADD 2
#endif

static int nimm, nnet, ntmr;	/* Pending immediate / ready network / expired timer events. */
static int lateready;		/* Network events which become ready at a later poll. */
static int polled;		/* Polled without waiting since the last event ran. */
static int running, nrun, stopped, status, intr, waited, nwait, fails, donef;
static int nadd;
static struct timeval tmin;
static int havemin;

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
int vp_atexit(void (* f)(void)) { (void)f; return (0); }

/* One callback for every event; the cookie says where it came from. */
static char src[3];
static int
cb(void * c)
{
	int what = vp_u8() & 7, rc = 0;

	vp_assert(!running && !stopped, "one event at a time, and none after an interrupt, an error or a non-zero status");
	vp_assert(c == &src[0] || c == &src[1] || c == &src[2], "the callback gets its cookie");
	nrun++;
	polled = 0;
	/* What the callback does. */
	if (what == 1) {
		status = rc = (int8_t)vp_u8();
		if (rc != 0)
			stopped = 1;
	} else if (what == 2) {
		events_interrupt();
		intr = stopped = 1;
	} else if (what == 3 && nadd < NADD)
		nimm++, nadd++;
	else if (what == 4)
		donef = 1;
	return (rc);
}

static struct eventrec *
rec(int i)
{
	struct eventrec * r = events_mkrec(cb, &src[i]);

	vp_assume(r != NULL);
	return (r);
}

struct eventrec *
events_immediate_get(void)
{

	if (nimm == 0)
		return (NULL);
	nimm--;
	return (rec(0));
}

int
events_network_select(const struct timeval * tv, const volatile sig_atomic_t * ir)
{

	vp_assert(!stopped, "no waiting after an interrupt, an error or a non-zero status");
	if (tv == NULL || tv->tv_sec != 0 || tv->tv_usec != 0) {
		vp_assert(nimm == 0, "never wait when there is something to do");
#ifdef SPIN
		vp_assert(!donef, "no waiting when done");
#else
		vp_assert(nrun == 0 && !waited, "wait once, at most");
#endif
		if (tv == NULL)
			vp_assert(!havemin, "wait forever only without timers");
		else
			vp_assert(havemin && tv->tv_sec == tmin.tv_sec && tv->tv_usec == tmin.tv_usec, "wait no longer than until the first timer expires");
		waited = 1;
		/* A signal may arrive. */
		if (vp_bool()) {
			events_interrupt();
			vp_assert(*ir != 0, "the poll can see the interrupt");
			intr = stopped = 1;
			return (0);
		}
	}
#ifdef SPIN
	/* Somebody ends this in the end. */
	if (++nwait > 3)
		donef = 1;
#endif
	polled = 1;
	if (fails == 1) {
		fails = 0;
		stopped = 2;
		return (-1);
	}
	if (lateready) {
		nnet += lateready;
		lateready = 0;
	}
	return (0);
}

struct eventrec *
events_network_get(void)
{

	if (nnet == 0)
		return (NULL);
	vp_assert(nimm == 0, "immediate events run before network events");
	nnet--;
	return (rec(1));
}

int
events_timer_min(struct timeval ** p)
{

	if (fails == 2) {
		fails = 0;
		stopped = 2;
		return (-1);
	}
	if (!havemin) {
		*p = NULL;
		return (0);
	}
	if ((*p = malloc(sizeof(struct timeval))) == NULL)
		abort();
	**p = tmin;
	return (0);
}

int
events_timer_get(struct eventrec ** r)
{

	if (fails == 3) {
		fails = 0;
		stopped = 2;
		return (-1);
	}
	*r = NULL;
	if (ntmr == 0)
		return (0);
	vp_assert(nimm == 0, "immediate events run before timers");
	vp_assert(polled && nnet == 0, "ready network events run before timers");
	ntmr--;
	*r = rec(2);
	return (0);
}

int
main(void)
{
	int rc, i0, n0, t0, spin = 0;

	nimm = vp_u8() & 1;
	nnet = vp_u8() & 1;
	lateready = vp_u8() & 1;
	ntmr = vp_u8() & 1;
	fails = vp_u8() & 3;
	havemin = ntmr || vp_bool();
	tmin.tv_sec = ntmr ? 0 : (vp_u8() & 3);
	tmin.tv_usec = ntmr ? 0 : (vp_u8() & 3);
	i0 = nimm;
	n0 = nnet + lateready;
	t0 = ntmr;
#ifdef SPIN
	rc = events_spin(&donef);
	if (stopped == 0)
		vp_assert(donef, "the loop ends when it is told to");
	if (donef)
		vp_witness("done");
#else
	rc = events_run();
	if (i0 + n0 + t0 > 0 && !stopped)
		vp_assert(nrun > 0, "something runs if it can");
	if (i0 > 0)
		vp_assert(nrun > 0 && !waited, "no waiting with immediate events pending");
	if (!stopped && !waited && i0 > 0)
		vp_assert(nimm == 0, "all immediate events have run");
	if (!stopped && i0 == 0)
		vp_assert(nimm == 0 && nnet == 0 && ntmr == 0, "everything runnable has run");
	if (nrun == 4)
		vp_witness("four events");
#endif
	vp_assert(rc == (stopped == 2 ? -1 : intr ? 0 : status), "the status is the first callback's which is not zero, or failure");
	if (intr)
		vp_witness("interrupted");
	if (status < -1)
		vp_witness("status");
	/* An interrupt does not linger. */
	if (intr) {
		stopped = intr = nrun = waited = fails = status = 0;
		nnet = ntmr = 0;
		nimm = 1;
		rc = events_run();
		vp_assert(nrun > 0, "the next run is not interrupted");
		vp_witness("run again");
	}
	return (0);
}
