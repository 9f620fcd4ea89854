/*
 * graceful.c: graceful shutdown with SIGTERM arriving at any point, manual
 * requests at any point, and every failure.
 */
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>

#include "vp.h"
#include "events.h"
#include "graceful_shutdown.h"

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

static void (* handler)(int);	/* SIGTERM handler in force. */
static void orig(int s) { (void)s; vp_assert(0, "not called"); }
static void (* atexitf)(void);
static int (* timerf)(void *);
static void * timerc;
static int armed, timerobj, began, beginrc, requested, failed, pending, inbegin, sigfail, ncookie;
static int me, insig;

static void
sigpoint(void)
{

	/* SIGTERM may arrive here (twice is like once). */
	if (insig || handler == NULL || handler == orig)
		return;
	if (vp_bool()) {
		insig = 1;
		requested = 1;
		handler(SIGTERM);
		insig = 0;
	}
}

typedef void sighandler(int);
sighandler *
vp_signal(int n, sighandler * h)
{
	sighandler * o = (handler == NULL) ? orig : handler;

	vp_assert(n == SIGTERM, "only SIGTERM");
	sigpoint();
	if (vp_bool()) {
		if (handler == NULL)
			failed = 1;
		sigfail = 1;
		errno = EINVAL;
		return (SIG_ERR);
	}
	handler = h;
	sigpoint();
	return (o);
}
int
vp_atexit(void (* f)(void))
{

	sigpoint();
	if (vp_bool()) {
		failed = 1;
		return (1);
	}
	vp_assert(atexitf == NULL, "one function");
	atexitf = f;
	return (0);
}
void *
events_timer_register_double(int (* f)(void *), void * c, double t)
{

	sigpoint();
	vp_assert(!armed, "one timer");
	vp_assert(t > 0.0 && t <= 1.0, "checks at least every second");
	if (vp_bool()) {
		failed = 1;
		errno = ENOMEM;
		return (NULL);
	}
	timerf = f;
	timerc = c;
	armed = 1;
	sigpoint();
	return (&timerobj);
}
void
events_timer_cancel(void * c)
{

	vp_assert(armed && c == &timerobj, "cancels the pending timer");
	armed = 0;
	sigpoint();
}
static int
begin(void * c)
{

	vp_assert(c == &me, "the caller's cookie");
	vp_assert(requested, "begins only on request");
	vp_assert(began == 0, "begins once");
	began = 1;
	sigpoint();
	if ((beginrc = vp_bool() ? -1 : 0) != 0)
		failed = 1;
	return (beginrc);
}

#ifndef STEPS
#define STEPS 4
#endif

int
main(void)
{
	int i, rc, want;

	rc = graceful_shutdown_initialize(begin, &me);
	vp_assert((rc != 0) == (failed != 0), "initializing fails exactly if something failed");
	vp_assert(began == 0, "nothing begins before the loop");
	if (rc != 0) {
		vp_assert(!armed, "no timer after a failure");
		vp_witness("not initialized");
		return (0);
	}
	vp_assert(handler != NULL && handler != orig && armed && atexitf != NULL, "ready");
	for (i = 0; i < STEPS && !failed; i++) {
		sigpoint();
		if (!began && vp_bool()) {
			/* A request from within. */
			requested = 1;
			graceful_shutdown_manual();
			vp_assert(began == 1, "begins at once");
			vp_assert(!armed, "no timer afterwards");
			vp_witness("manual");
		} else if (armed) {
			/* The timer expires. */
			want = requested;
			armed = 0;
			rc = timerf(timerc);
			vp_assert(!want || began, "begins on the next check");
			vp_assert((rc != 0) == (failed != 0), "reports failures");
			vp_assert(failed || began != armed, "goes on checking until then");
			if (want)
				vp_witness("by signal");
		}
		if (began && !failed && !sigfail)
			vp_assert(handler == orig, "a second SIGTERM is not caught");
	}
	if (began)
		vp_assert(!armed, "no timer afterwards");
	atexitf();
	vp_assert(!armed, "no timer left at exit");
	return (0);
}
