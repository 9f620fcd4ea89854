/*
 * netconnect.c: a connection attempt over a list of addresses: every outcome
 * of every system call and every order of events, with the real
 * network_connect.c and sock_connect_bind_nb.
 */
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>

#include "vp.h"
#include "alloc.h"
#include "events.h"
#include "network.h"
#include "sock.h"
#include "sock_internal.h"

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

#ifndef NADDR
#define NADDR 2
#endif
#define FD0 20

static struct sock_addr A[NADDR], B;
static struct sockaddr name[NADDR], nameb;
static struct sock_addr * sas[NADDR + 1];
static const struct timeval timeo = { 3, 500000 };
static int bindto, hastimeo;
static int next;	/* Address to be tried next. */
static int fd = -1;	/* The socket which is open. */
static int nonblock, reused, bound, connecting, serr = -1;
static int fatal, callbacks, over, ncookie, given;
static int caller;

/* Events. */
static int (* netf)(void *), (* timerf)(void *), (* immf)(void *);
static void * netc, * timerc, * immc;
static int netreg, timerreg, immreg, timerobj, immobj;

int
sim_fail(void)
{
	int f = vp_bool();

	fatal |= f;
	errno = ENOMEM;
	return (f);
}

int
vp_socket(int d, int t, int p)
{

	vp_assert(fd == -1 && !over && !callbacks, "one socket at a time");
	vp_assert(next < NADDR && d == 100 + next && t == SOCK_STREAM && p == 0, "the addresses in order, each once");
	next++;
	nonblock = reused = bound = connecting = 0;
	serr = -1;
	if (vp_bool()) {
		errno = EMFILE;
		return (-1);
	}
	fd = FD0 + next - 1;
	return (fd);
}
int
vp_setsockopt(int s, int l, int o, const void * v, socklen_t n)
{

	vp_assert(s == fd && l == SOL_SOCKET && o == SO_REUSEADDR && n == sizeof(int) && *(const int *)v != 0, "may reuse the address");
	reused = 1;
	if (vp_bool()) {
		errno = vp_bool() ? ENOPROTOOPT : EIO;
		if (errno != ENOPROTOOPT)
			serr = 1;
		return (-1);
	}
	return (0);
}
int
vp_bind(int s, const struct sockaddr * a, socklen_t n)
{

	vp_assert(s == fd && bindto && a == &nameb && n == B.namelen && !connecting && serr != 1, "binds as asked, before connecting");
	vp_assert(reused, "may reuse the address");
	bound = 1;
	if (vp_bool()) {
		serr = 1;
		errno = EADDRINUSE;
		return (-1);
	}
	return (0);
}
int
vp_fcntl(int s, int c, int v)
{

	vp_assert(s == fd && c == F_SETFL && v == O_NONBLOCK, "non-blocking");
	nonblock = 1;
	if (vp_bool()) {
		serr = 1;
		return (-1);
	}
	return (0);
}
int
vp_connect(int s, const struct sockaddr * a, socklen_t n)
{
	int c = vp_range(0, 3);

	vp_assert(s == fd && a == &name[next - 1] && n == A[next - 1].namelen && !connecting && serr != 1, "connects to its address");
	vp_assert(nonblock && bound == bindto, "without blocking, from the right address");
	connecting = 1;
	if (c == 0)
		return (0);
	if (c == 3)
		serr = 1;
	errno = (c == 1) ? EINPROGRESS : (c == 2) ? EINTR : ECONNREFUSED;
	return (-1);
}
int
vp_close(int s)
{

	vp_assert(s == fd && fd != -1 && !given, "closes what is open");
	vp_assert(!netreg, "not while waiting for it");
	fd = -1;
	if (vp_bool()) {
		errno = EIO;
		return (-1);
	}
	return (0);
}
int
vp_getsockopt(int s, int l, int o, void * v, socklen_t * n)
{

	vp_assert(s == fd && connecting && l == SOL_SOCKET && o == SO_ERROR && *n == sizeof(int), "asks how connecting ended");
	if (sim_fail())
		return (-1);
	serr = vp_range(0, 1);
	*(int *)v = serr;
	return (0);
}

int
events_network_register(int (* f)(void *), void * c, int s, int op)
{

	vp_assert(!netreg && s == fd && connecting && op == EVENTS_NETWORK_OP_WRITE, "waits until connected");
	if (sim_fail())
		return (-1);
	netreg = 1;
	netf = f;
	netc = c;
	return (0);
}
int
events_network_cancel(int s, int op)
{

	vp_assert(netreg && s == fd && op == EVENTS_NETWORK_OP_WRITE, "cancels what is registered");
	netreg = 0;
	return (0);
}
void *
events_timer_register(int (* f)(void *), void * c, const struct timeval * t)
{

	vp_assert(!timerreg && hastimeo, "a timer if asked");
	vp_assert(t->tv_sec == timeo.tv_sec && t->tv_usec == timeo.tv_usec, "of the right duration");
	if (sim_fail())
		return (NULL);
	timerreg = 1;
	timerf = f;
	timerc = c;
	return (&timerobj);
}
void
events_timer_cancel(void * c)
{

	vp_assert(timerreg && c == &timerobj, "cancels what is registered");
	timerreg = 0;
}
void *
events_immediate_register(int (* f)(void *), void * c, int prio)
{

	(void)prio;
	vp_assert(!immreg && !netreg && !timerreg, "nothing else is pending");
	if (sim_fail())
		return (NULL);
	immreg = 1;
	immf = f;
	immc = c;
	return (&immobj);
}
void
events_immediate_cancel(void * c)
{

	vp_assert(immreg && c == &immobj, "cancels what is registered");
	immreg = 0;
}

static int retval;
static int
callback(void * c, int s)
{

	vp_assert(c == &caller, "the caller's cookie");
	vp_assert(!over && callbacks == 0, "called back once");
	callbacks++;
	vp_assert(!netreg && !timerreg && !immreg, "nothing is pending");
	if (s != -1) {
		vp_assert(s == fd && connecting && serr == 0, "a connected socket");
		given = 1;
		vp_witness("connected");
	} else {
		vp_assert(fd == -1, "no socket is left open");
		vp_assert(next == NADDR || fatal, "gives up only when all addresses have been tried");
		vp_witness("gave up");
	}
	return (retval);
}

static void
clean(void)
{

	vp_assert(!netreg && !timerreg && !immreg, "nothing is pending");
	vp_assert(fd == -1 || given, "no socket is left open");
	vp_assert(vp_alloc_live == 0, "nothing left behind");
}

int
main(void)
{
	void * C;
	int i, rc, kind;

	for (i = 0; i < NADDR; i++) {
		A[i].ai_family = 100 + i;
		A[i].ai_socktype = SOCK_STREAM;
		A[i].name = &name[i];
		A[i].namelen = (socklen_t)(2 + i);
		sas[i] = &A[i];
	}
	B.name = &nameb;
	B.namelen = 9;
	retval = vp_range(-1, 0);
	kind = vp_range(0, 3);
	hastimeo = (kind == 1);
	bindto = (kind == 3);
	if (kind == 0)
		C = network_connect(sas, callback, &caller);
	else if (kind == 1)
		C = network_connect_timeo(sas, &timeo, callback, &caller);
	else
		C = network_connect_bind(sas, bindto ? &B : NULL, callback, &caller);
	vp_assert(callbacks == 0, "not called back before it returns");
	if (C == NULL) {
		vp_assert(fatal, "fails only if something failed");
		vp_assert(fd == -1, "no socket is left open");
		clean();
		return (0);
	}
	vp_assert(!fatal, "reports failures");
	for (i = 0; i < NADDR + 1; i++) {
		vp_assert(netreg || immreg, "is waiting for something");
		vp_assert(immreg || timerreg == hastimeo, "not forever, if asked");
		switch (vp_range(0, 2)) {
		case 0:
			over = 1;
			network_connect_cancel(C);
			vp_assert(fd == -1 && !callbacks, "the socket is closed");
			vp_witness("cancelled");
			clean();
			return (0);
		case 1:
			if (netreg) {
				netreg = 0;
				rc = netf(netc);
			} else {
				immreg = 0;
				rc = immf(immc);
			}
			break;
		default:
			if (!timerreg)
				continue;
			timerreg = 0;
			rc = timerf(timerc);
			break;
		}
		if (callbacks) {
			vp_assert(rc == retval, "returns what the callback returned");
			clean();
			return (0);
		}
		vp_assert(!fatal && rc == 0, "a failure ends with the callback");
	}
	return (0);
}
