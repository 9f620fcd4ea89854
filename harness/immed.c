/*
 * immed.c: the immediate event queue (events_immediate.c): every sequence of
 * NSTEP registrations (three priorities), cancellations and fetches.  A tree
 * of choices (see handshake.c).
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "events.h"
#include "events_internal.h"

#ifndef NSTEP
#define NSTEP 4
#endif

static char recs[NSTEP];
static int pend[NSTEP], live[NSTEP], prio[NSTEP], n;
static void * ck[NSTEP];
static int failat, nfail;
int sim_fail(void) { return (++nfail == failat); }
static int cb(void * c) { (void)c; return (0); }
void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

struct eventrec *
events_mkrec(int (* f)(void *), void * c)
{
	int i = (int)((char *)c - recs);

	vp_assert(f == cb && i >= 0 && i < NSTEP && !live[i], "the event carries the caller's function and cookie");
	if (sim_fail())
		return (NULL);
	live[i] = 1;
	return ((struct eventrec *)c);
}

void
events_freerec(struct eventrec * r)
{
	int i = (int)((char *)r - recs);

	vp_assert(i >= 0 && i < NSTEP && live[i], "only a live record is freed");
	live[i] = 0;
}

static void
reg(int p)
{
	int f = nfail;

	ck[n] = events_immediate_register(cb, &recs[n], p);
	prio[n] = p;
	pend[n] = (ck[n] != NULL);
	vp_assert(ck[n] != NULL || (f < failat && nfail >= failat), "registering fails only when memory runs out");
	vp_assert(live[n] == pend[n], "the event exists while it is pending");
	n++;
}

/* Expect the first-registered event of the lowest priority value. */
static int
get(void)
{
	struct eventrec * r = events_immediate_get();
	int i, best = -1;

	for (i = 0; i < n; i++)
		if (pend[i] && (best == -1 || prio[i] < prio[best]))
			best = i;
	if (best == -1) {
		vp_assert(r == NULL, "no event is invented");
		return (0);
	}
	vp_assert(r == (struct eventrec *)&recs[best], "the oldest event of the most urgent priority comes next");
	pend[best] = live[best] = 0;
	return (1);
}

static void
step(int k)
{
	int c, i;

	if (k == NSTEP) {
		while (get())
			continue;
		if (n == NSTEP)
			vp_witness("end");
		return;
	}
	c = vp_u8();
	if (c == 0) {
		reg(0);
		step(k + 1);
		return;
	}
	if (c == 1) {
		reg(3);
		step(k + 1);
		return;
	}
	if (c == 2) {
		reg(31);
		step(k + 1);
		return;
	}
	if (c == 3) {
		get();
		step(k + 1);
		return;
	}
	for (i = 0; i < n; i++) {
		if (pend[i] && c == 4 + i) {
			events_immediate_cancel(ck[i]);
			vp_assert(!live[i], "a cancelled event is released");
			pend[i] = 0;
			step(k + 1);
			return;
		}
	}
}

int
main(void)
{
	int i, r = vp_u8();

	for (i = 0; i <= NFAULT; i++) {
		if (r == i) {
			failat = i;
			step(0);
			return (0);
		}
	}
	return (0);
}
