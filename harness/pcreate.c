/*
 * pcreate.c: pthread_create_blocking_np with every schedule of the two threads
 * that the mutex and the condition variable allow.
 */
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "alloc.h"
#include "pthread_create_blocking_np.h"

static void * (* tfn)(void *);
static void * targ;
static int created, inthread, started, tdone, mlive, clive, owner, signalled, spurious, failed, running;
static pthread_mutex_t * M;
static pthread_cond_t * C;
static pthread_t thr;
static pthread_attr_t attr;
static int arg, result;
static uint8_t save[256];
static size_t usize;

int
sim_fail(void)
{
	int f = vp_bool();

	failed |= f;
	if (f)
		errno = ENOMEM;
	return (f);
}
int
vp_minit(pthread_mutex_t * m, const pthread_mutexattr_t * a)
{

	(void)a;
	vp_assert(!mlive && !inthread, "one mutex");
	if (sim_fail())
		return (ENOMEM);
	M = m;
	mlive = 1;
	return (0);
}
int
vp_cinit(pthread_cond_t * c, const pthread_condattr_t * a)
{

	(void)a;
	vp_assert(!clive && !inthread, "one condition");
	if (sim_fail())
		return (ENOMEM);
	C = c;
	clive = 1;
	return (0);
}
int
vp_mdestroy(pthread_mutex_t * m)
{

	vp_assert(mlive && m == M && owner == 0 && !inthread, "destroys an idle mutex");
	vp_assert(!created || tdone, "not while the thread needs it");
	mlive = 0;
	return (0);
}
int
vp_cdestroy(pthread_cond_t * c)
{

	vp_assert(clive && c == C && !inthread, "destroys its condition");
	vp_assert(!created || tdone, "not while the thread needs it");
	clive = 0;
	return (0);
}
static void
runthread(void)
{

	vp_assert(created && !tdone && owner == 0, "runs while nobody holds the mutex");
	inthread = 1;
	vp_assert(tfn(targ) == &result, "returns what the routine returned");
	vp_assert(running && tdone, "ran the routine");
	inthread = 0;
#ifdef VP_SCRAMBLE
	memcpy(targ, save, VP_SCRAMBLE);
#endif
}
int
vp_mlock(pthread_mutex_t * m)
{

	vp_assert(mlive && m == M, "locks the mutex");
	vp_assert(owner == 0, "no deadlock");
	owner = inthread ? 2 : 1;
	return (0);
}
int
vp_munlock(pthread_mutex_t * m)
{

	vp_assert(mlive && m == M && owner == (inthread ? 2 : 1), "unlocks what it locked");
	owner = 0;
	if (inthread) {
		/* From here on, the parent may free what it shares with the thread. */
		vp_assert(signalled, "the parent was told");
		tdone = 1;
#ifdef VP_SCRAMBLE
		memcpy(save, targ, VP_SCRAMBLE);
		memset(targ, 0xa5, VP_SCRAMBLE);
#endif
	} else if (created && !tdone && vp_bool())
		runthread();
	return (0);
}
int
vp_csignal(pthread_cond_t * c)
{

	vp_assert(inthread && clive && c == C && owner == 2, "signals under the mutex");
	signalled = 1;
	return (0);
}
int
vp_cwait(pthread_cond_t * c, pthread_mutex_t * m)
{

	vp_assert(!inthread && created && clive && c == C && m == M && owner == 1, "waits with the mutex held");
	vp_assert(!signalled, "does not wait for what has happened");
	/* Waking without reason is allowed. */
	if (spurious < 2 && vp_bool()) {
		spurious++;
		return (0);
	}
	owner = 0;
	runthread();
	owner = 1;
	return (0);
}
int
vp_pcreate(pthread_t * t, const pthread_attr_t * a, void * (* f)(void *), void * c)
{

	vp_assert(!created && !inthread && t == &thr && a == &attr, "creates one thread as asked");
	if (sim_fail())
		return (EAGAIN);
	tfn = f;
	targ = c;
	created = 1;
	if (owner == 0 && vp_bool())
		runthread();
	return (0);
}
static void *
routine(void * c)
{

	vp_assert(inthread && c == &arg && !running, "runs the routine once, with its argument");
	running = 1;
	return (&result);
}

int
main(void)
{
	int rc;

	rc = pthread_create_blocking_np(&thr, &attr, routine, &arg);
	vp_assert((rc != 0) == failed, "fails exactly if something failed");
	vp_assert(!mlive && !clive && vp_alloc_live == 0 && owner == 0, "everything is released");
	if (rc == 0) {
		vp_assert(running, "has started");
		vp_witness("started");
	} else {
		vp_assert(!created, "no thread");
		vp_assert(rc > 0, "an error number");
		vp_witness("failed");
	}
	return (0);
}
