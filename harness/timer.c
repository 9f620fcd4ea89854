/*
 * timer.c: timers (events_timer.c, timerqueue.c, ptrheap.c) against a model:
 * a sequence of registrations, cancellations, resets, clock advances and
 * fetches, with arbitrary times.
 */
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>

#include "vp.h"
#include "alloc.h"
#include "events.h"
#include "events_internal.h"
#include "monoclock.h"

#ifndef NT
#define NT 5
#endif

static struct timeval now;
static char recs[NT];
static int live[NT];		/* Record allocated. */
static int pend[NT];		/* Timer is pending. */
static void * ck[NT];
static int nt, clockfail;
static int failat, nfail;
int sim_fail(void) { return (++nfail == failat); }
static int cb(void * c) { (void)c; return (0); }

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
static void (* atexit_f)(void);
int vp_atexit(void (* f)(void)) { atexit_f = f; return (0); }

int
monoclock_get(struct timeval * tv)
{

	if (sim_fail())
		return (-1);
	*tv = now;
	return (0);
}

struct eventrec *
events_mkrec(int (* f)(void *), void * c)
{
	int i = (int)((char *)c - recs);

	vp_assert(f == cb && i >= 0 && i < NT && !live[i], "the event carries the caller's function and cookie");
	if (sim_fail())
		return (NULL);
	live[i] = 1;
	return ((struct eventrec *)c);
}

void
events_freerec(struct eventrec * r)
{
	int i = (int)((char *)r - recs);

	vp_assert(i >= 0 && i < NT && live[i], "only a live record is freed");
	live[i] = 0;
}

#ifdef SHAPE
/* Fixed memory for the heap's array. */
static void * slots[NT + 1];
static size_t nslots;
struct elasticarray { int x; } ea;
struct elasticarray * elasticarray_init(size_t n, size_t rl) { vp_assert(n == 0 && rl == sizeof(void *), "array of pointers"); return (&ea); }
int elasticarray_resize(struct elasticarray * e, size_t n, size_t rl) { (void)e; (void)rl; nslots = n; return (0); }
size_t elasticarray_getsize(const struct elasticarray * e, size_t rl) { (void)e; (void)rl; return (nslots); }
void * elasticarray_get(struct elasticarray * e, size_t pos, size_t rl) { (void)e; (void)rl; vp_assert(pos < nslots, "element exists"); return (&slots[pos]); }
void elasticarray_free(struct elasticarray * e) { (void)e; }
int elasticarray_append(struct elasticarray * e, const void * b, size_t n, size_t rl) { (void)e; (void)rl; vp_assert(n == 1 && nslots < NT, "one element"); slots[nslots++] = *(void * const *)b; return (0); }
void elasticarray_shrink(struct elasticarray * e, size_t n, size_t rl) { (void)e; (void)rl; nslots -= n; }
int elasticarray_truncate(struct elasticarray * e) { (void)e; return (0); }

static const char shape[] = SHAPE;
static uint8_t dl[NT], to[NT];	/* Deadlines and durations in seconds. */

static void
step(int op)
{
	struct timeval tv, * p;
	struct eventrec * r;
	int i, k, any = 0;
	uint8_t min = 255;

	switch (op) {
	case 'A':
		to[nt] = vp_u8() & 7;
		tv.tv_sec = to[nt];
		tv.tv_usec = 0;
		dl[nt] = (uint8_t)now.tv_sec + to[nt];
		ck[nt] = events_timer_register(cb, &recs[nt], &tv);
		vp_assert(ck[nt] != NULL, "registering works");
		pend[nt] = 1;
		nt++;
		break;
	case 'C':
	case 'R':
		k = vp_u8() & 7;
		for (i = 0; i < nt; i++) {
			if (i != k || !pend[i])
				continue;
			if (op == 'C') {
				events_timer_cancel(ck[i]);
				pend[i] = 0;
				vp_assert(!live[i], "a cancelled timer's record is released");
			} else {
				vp_assert(events_timer_reset(ck[i]) == 0, "resetting works");
				dl[i] = (uint8_t)now.tv_sec + to[i];
			}
		}
		break;
	case 'T':
		now.tv_sec += vp_u8() & 3;
		break;
	case 'M':
	case 'G':
		for (i = 0; i < nt; i++) {
			if (pend[i] && (!any || dl[i] < min))
				min = dl[i];
			any |= pend[i];
		}
		if (op == 'M') {
			vp_assert(events_timer_min(&p) == 0, "no failure");
			vp_assert((p == NULL) == !any, "wait forever only without timers");
			if (any) {
				vp_assert(p->tv_usec == 0 && p->tv_sec == ((min <= now.tv_sec) ? 0 : min - now.tv_sec), "wait until the first timer expires");
				free(p);
			}
			break;
		}
		vp_assert(events_timer_get(&r) == 0, "no failure");
		if (!any || min > now.tv_sec) {
			vp_assert(r == NULL, "no timer fires early");
			break;
		}
		vp_assert(r != NULL, "an expired timer fires");
		k = (int)((char *)r - recs);
		vp_assert(k >= 0 && k < nt && pend[k] && live[k], "only a pending timer fires, once");
		vp_assert(dl[k] == min, "the timer with the earliest deadline fires first");
		pend[k] = live[k] = 0;
		break;
	}
}
#endif

#ifdef ARITH
/* One timer, any times: never early, wait until exactly the deadline. */
static void
arith(void)
{
	struct timeval tv, t0, due, * p;
	struct eventrec * r;
	double timeo;
	int over;

	now.tv_sec = vp_u32() & 0xffff;
	now.tv_usec = vp_u32() & 0xfffff;
	vp_assume(now.tv_usec < 1000000);
	t0 = now;
	tv.tv_sec = vp_u32() & 0xffff;
	tv.tv_usec = vp_u32() & 0xfffff;
	vp_assume(tv.tv_usec < 1000000);
	ck[0] = events_timer_register(cb, &recs[0], &tv);
	vp_assert(ck[0] != NULL, "registering works");
	/* Some time later... */
	now.tv_sec = vp_u32() & 0x3ffff;
	now.tv_usec = vp_u32() & 0xfffff;
	vp_assume(now.tv_usec < 1000000);
	/* The deadline. */
	due.tv_sec = t0.tv_sec + tv.tv_sec;
	due.tv_usec = t0.tv_usec + tv.tv_usec;
	if (due.tv_usec >= 1000000) {
		due.tv_usec -= 1000000;
		due.tv_sec += 1;
	}
	over = (now.tv_sec > due.tv_sec) || (now.tv_sec == due.tv_sec && now.tv_usec >= due.tv_usec);
	vp_assert(events_timer_min(&p) == 0 && p != NULL, "there is a timer");
	vp_assert(p->tv_usec >= 0 && p->tv_usec < 1000000 && p->tv_sec >= 0, "the wait is well-formed");
	if (over) {
		vp_assert(p->tv_sec == 0 && p->tv_usec == 0, "no wait for an expired timer");
	} else {
		/* now + wait == deadline. */
		t0.tv_sec = now.tv_sec + p->tv_sec;
		t0.tv_usec = now.tv_usec + p->tv_usec;
		if (t0.tv_usec >= 1000000) {
			t0.tv_usec -= 1000000;
			t0.tv_sec += 1;
		}
		vp_assert(t0.tv_sec == due.tv_sec && t0.tv_usec == due.tv_usec, "wait until the timer expires");
	}
	free(p);
	vp_assert(events_timer_get(&r) == 0, "no failure");
	vp_assert((r != NULL) == over, "a timer fires as soon as its time is over, not earlier");
	if (r != NULL) {
		vp_assert(r == (struct eventrec *)&recs[0], "the timer's event");
		vp_assert(events_timer_get(&r) == 0 && r == NULL, "a timer fires once");
		vp_assert(events_timer_min(&p) == 0 && p == NULL, "no timer is left");
		vp_witness("fired");
	} else {
		vp_witness("not yet");
		if (due.tv_usec < now.tv_usec)
			vp_witness("carry");
	}
}
#endif

#ifdef DOUBLE
/* A duration given as a double. */
static void
dbl(void)
{
	struct timeval * p;
#if DOUBLE == 1
	double timeo = vp_double();

	vp_assume(timeo >= 0.0);
#else
	uint32_t s = vp_u32() & 0xffff, f = vp_u8() & 3;
	double timeo = (double)s + (double)f * 0.25;
#endif
	vp_assert(events_timer_register_double(cb, &recs[0], timeo) != NULL, "registering works");
	vp_assert(events_timer_min(&p) == 0 && p != NULL, "there is a timer");
#if DOUBLE == 1
	if (timeo < 1048576.0)
		vp_assert((double)p->tv_sec <= timeo && (double)(p->tv_sec + 1) > timeo, "whole seconds");
	else {
		vp_assert(p->tv_sec >= 1048576, "a long timeout stays long");
		vp_witness("long timeout");
	}
	vp_assert(p->tv_usec >= 0 && p->tv_usec < 1000000, "microseconds");
#else
	vp_assert(p->tv_sec == s && p->tv_usec == f * 250000, "exact durations");
#endif
	vp_witness("double");
}
#endif

#ifdef FAULTS
/* Two timers with the n-th fallible call failing; real arrays. */
static void
faults(void)
{
	struct timeval tv = {1, 0}, * p;
	struct eventrec * r;
	int i, n = 0, f;

	for (i = 0; i < 3; i++) {
		f = nfail;
		tv.tv_sec = 3 - i;
		if ((ck[i] = events_timer_register(cb, &recs[i], &tv)) == NULL) {
			vp_assert(f < failat && nfail >= failat, "registering fails only when a resource runs out");
			vp_assert(!live[i], "a failed registration leaves no record");
			vp_witness("registration failed");
		} else {
			vp_assert(live[i], "the timer has its event");
			pend[i] = 1;
			n++;
		}
	}
	now.tv_sec = 1;
	f = nfail;
	if (events_timer_min(&p) == 0) {
		vp_assert((p != NULL) && p->tv_sec == (pend[2] ? 0 : pend[1] ? 1 : 2), "the wait is until the first timer");
		vp_free(p);
	} else {
		vp_assert(f < failat && nfail >= failat, "failure only when a resource runs out");
		vp_witness("min failed");
	}
	f = nfail;
	if (ck[0] != NULL && events_timer_reset(ck[0])) {
		vp_assert(f < failat && nfail >= failat, "failure only when a resource runs out");
		vp_witness("reset failed");
	}
	for (i = 2; i >= 0; i--) {
		if (!pend[i])
			continue;
		now.tv_sec = 4 + (3 - i);
		f = nfail;
		if (events_timer_get(&r)) {
			vp_assert(f < failat && nfail >= failat, "failure only when a resource runs out");
			vp_witness("get failed");
			vp_assert(events_timer_get(&r) == 0, "an error does not lose the timer");
		}
		vp_assert(r == (struct eventrec *)&recs[i], "timers fire in order in spite of failures");
		pend[i] = live[i] = 0;
	}
	f = nfail;
	if (events_timer_get(&r))
		vp_assert(f < failat && nfail >= failat, "failure only when a resource runs out");
	else
		vp_assert(r == NULL, "no timers are left");
	if (atexit_f != NULL)
		atexit_f();
	vp_assert(vp_alloc_live == 0, "nothing is left at exit");
	vp_witness("clean exit");
}
#endif

int
main(void)
{
#ifdef SHAPE
	int i;

	now.tv_sec = 10;
	for (i = 0; i < (int)sizeof(shape) - 1; i++)
		step(shape[i]);
	vp_witness("all steps");
#elif defined(ARITH)
	arith();
#elif defined(DOUBLE)
	dbl();
#else
	int i, r = vp_u8();

	for (i = 0; i <= FAULTS; i++) {
		if (r == i) {
			failat = i;
			faults();
			return (0);
		}
	}
#endif
	return (0);
}
