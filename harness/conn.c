/*
 * proto_conn.c: the life of one connection, every order of events.
 * A tree of choices (see handshake.c): state stays constant on each branch.
 */
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "alloc.h"
#include "events.h"
#include "network.h"
#include "sock.h"
#include "proto_conn.h"
#include "proto_crypt.h"
#include "proto_handshake.h"
#include "proto_pipe.h"

#ifndef NEV
#define NEV 7
#endif
#define S 5
#define T 6

static int failat, nfail;
int sim_fail(void) { return (++nfail == failat); }

static struct tm_ { int pending; int (* f)(void *); void * c; double t; } tm[2];
static struct { int pending, started; int (* cb)(void *, int); void * c; } con;
static struct { int pending, started, fd; int (* cb)(void *, struct proto_keys *, struct proto_keys *); void * c; } hs;
static struct { int live, started; int * status; int (* cb)(void *); void * c; } pp[2];
static int openfd[10];
static int freedf, freedr, sasfreed, made, reason, dead, deadrc, connected, keyed, dropping;
static int decr, nopfs, requirepfs, nokeepalive;
static double timeo;
static int kf, kr, sasobj, sabobj, secretobj, owner;
#define KF ((struct proto_keys *)(void *)&kf)
#define KR ((struct proto_keys *)(void *)&kr)
#define SAS ((struct sock_addr **)(void *)&sasobj)
#define SAB ((const struct sock_addr *)(const void *)&sabobj)
#define SECRET ((const struct proto_secret *)(const void *)&secretobj)
static void * C;

void *
events_timer_register_double(int (* f)(void *), void * c, double t)
{
	int i = tm[0].pending ? 1 : 0;

	vp_assert(t == timeo, "the timeout is the configured one");
	if (sim_fail())
		return (NULL);
	vp_assert(!tm[i].pending, "two timers at most");
	tm[i].pending = 1;
	tm[i].f = f;
	tm[i].c = c;
	return (&tm[i]);
}

void
events_timer_cancel(void * c)
{
	int i = (c == &tm[0]) ? 0 : 1;

	vp_assert(c == &tm[i] && tm[i].pending, "only a pending timer is cancelled");
	tm[i].pending = 0;
}

void *
network_connect_bind(struct sock_addr * const * sas, const struct sock_addr * b, int (* cb)(void *, int), void * c)
{

	vp_assert(sas == SAS && b == SAB && !con.started, "connect once to the target, from the bind address");
	if (sim_fail())
		return (NULL);
	con.started = con.pending = 1;
	con.cb = cb;
	con.c = c;
	return (&con);
}

void
network_connect_cancel(void * c)
{

	vp_assert(c == &con && con.pending, "only a pending connect is cancelled");
	vp_assert(!sasfreed, "addresses outlive the connect");
	con.pending = 0;
}

void *
proto_handshake(int s, int d, int np, int rp, const struct proto_secret * k,
    int (* cb)(void *, struct proto_keys *, struct proto_keys *), void * c)
{

	vp_assert(!hs.started, "one handshake");
	vp_assert(!d == !decr && !np == !nopfs && !rp == !requirepfs && k == SECRET, "handshake settings");
	vp_assert(s == (decr ? S : T) && openfd[s], "the handshake runs on the encrypted side");
	if (sim_fail())
		return (NULL);
	hs.started = hs.pending = 1;
	hs.cb = cb;
	hs.c = c;
	return (&hs);
}

void
proto_handshake_cancel(void * c)
{

	vp_assert(c == &hs && hs.pending, "only a pending handshake is cancelled");
	hs.pending = 0;
}

void *
proto_pipe(int in, int out, int d, struct proto_keys * k, int * status, int (* cb)(void *), void * c)
{
	int i = (in == S) ? 0 : 1;

	vp_assert(keyed && connected, "data flows only after the handshake and the connect");
	vp_assert(!pp[i].started && openfd[in] && openfd[out], "one pipe per direction");
	if (i == 0)
		vp_assert(in == S && out == T && k == KF && !d == !decr, "forward direction");
	else
		vp_assert(in == T && out == S && k == KR && !d == !!decr, "reverse direction");
	vp_assert(*status == 1, "status is 'running'");
	if (sim_fail())
		return (NULL);
	pp[i].started = pp[i].live = 1;
	pp[i].status = status;
	pp[i].cb = cb;
	pp[i].c = c;
	return (&pp[i]);
}

void
proto_pipe_cancel(void * c)
{
	int i = (c == &pp[0]) ? 0 : 1;

	vp_assert(c == &pp[i] && pp[i].live, "a pipe is cancelled once");
	pp[i].live = 0;
}

void
proto_crypt_free(struct proto_keys * k)
{

	if (k == NULL)
		return;
	vp_assert((k == KF && !freedf) || (k == KR && !freedr), "keys are freed once");
	if (k == KF)
		freedf = 1;
	else
		freedr = 1;
}

void
sock_addr_freelist(struct sock_addr ** p)
{

	if (p == NULL)
		return;
	vp_assert(p == SAS && !sasfreed && !con.pending, "the target addresses are freed once, after the connect");
	sasfreed = 1;
}

int
vp_close(int fd)
{

	vp_assert((fd == S || fd == T) && openfd[fd], "sockets are closed once");
	openfd[fd] = 0;
	return (0);
}

int
vp_setsockopt(int fd, int l, int o, const void * v, socklen_t n)
{

	vp_assert((fd == S || fd == T) && openfd[fd], "socket options on open sockets");
	if (l == SOL_SOCKET && o == SO_KEEPALIVE)
		vp_assert(n == sizeof(int) && !*(const int *)v == !!nokeepalive, "keep-alives are as configured");
	return (vp_bool() ? 0 : -1);
}
void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

static int
callback_dead(void * c, int r)
{

	vp_assert(c == &owner && !dead, "the owner is told once");
	vp_assert(!tm[0].pending && !tm[1].pending && !con.pending && !hs.pending && !pp[0].live && !pp[1].live, "nothing is in progress when a connection is dropped");
	vp_assert(!openfd[S] && !openfd[T], "both sockets are closed");
	vp_assert(sasfreed, "the target addresses are freed");
	vp_assert(freedf == keyed && freedr == keyed, "the keys are freed");
	dead = 1;
	reason = r;
	deadrc = vp_bool() ? 0 : -1;
	return (deadrc);
}

#define DEAD(rc, why) do {						\
	vp_assert(dead && reason == (why), "dropped for the right reason");	\
	vp_assert((rc) == deadrc, "the owner's status is passed on");	\
	vp_assert(vp_alloc_live == 0, "the connection is freed");	\
} while (0)

static void
fatal(int rc)
{

	vp_assert(rc != 0, "a resource failure stops the event loop");
	if (dead)
		vp_assert(reason == PROTO_CONN_ERROR && vp_alloc_live == 0, "dropped with an error");
	vp_witness("resource failure");
}

static void
invariant(void)
{

	vp_assert(!dead, "alive");
	vp_assert(openfd[S] && openfd[T] == connected, "sockets stay open");
	vp_assert(con.pending == !connected, "connecting or connected");
	vp_assert(hs.pending == (hs.started && !keyed), "handshaking or done");
	vp_assert(hs.started == (decr || connected), "the handshake starts as soon as it can");
	vp_assert(tm[0].pending + tm[1].pending == con.pending + hs.pending, "each phase in progress has its own timer");
	vp_assert(pp[0].started == (connected && keyed) && pp[1].started == (connected && keyed), "data flows as soon as both ends are ready");
	vp_assert(pp[0].live == pp[0].started && pp[1].live == pp[1].started, "both directions live until the end");
}

static void
step(int ev)
{
	int rc, i;

	invariant();
	vp_assert(ev < NEV, "a connection's life is short");
	/* Dropped by the owner. */
	if (vp_bool()) {
		rc = proto_conn_drop(C, PROTO_CONN_CANCELLED);
		DEAD(rc, PROTO_CONN_CANCELLED);
		vp_witness("cancelled");
		return;
	}
	/* A timeout. */
	for (i = 0; i < 2; i++) {
		if (tm[i].pending && vp_bool()) {
			tm[i].pending = 0;
			rc = (tm[i].f)(tm[i].c);
			DEAD(rc, PROTO_CONN_ERROR);
			if (keyed || connected)
				vp_witness("late timeout");
			else
				vp_witness("timeout");
			return;
		}
	}
	if (con.pending && vp_bool()) {
		con.pending = 0;
		if (vp_bool()) {
			rc = (con.cb)(con.c, -1);
			DEAD(rc, PROTO_CONN_CONNECT_FAILED);
			vp_witness("connect failed");
			return;
		}
		openfd[T] = connected = 1;
		rc = (con.cb)(con.c, T);
		if (nfail >= failat) {
			fatal(rc);
			return;
		}
		vp_assert(rc == 0 && sasfreed, "connected; the addresses are freed");
		step(ev + 1);
		return;
	}
	if (hs.pending && vp_bool()) {
		hs.pending = 0;
		if (vp_bool()) {
			rc = (hs.cb)(hs.c, NULL, NULL);
			DEAD(rc, PROTO_CONN_HANDSHAKE_FAILED);
			vp_witness("handshake failed");
			return;
		}
		keyed = 1;
		rc = (hs.cb)(hs.c, KF, KR);
		if (nfail >= failat) {
			fatal(rc);
			return;
		}
		vp_assert(rc == 0, "handshake done");
		step(ev + 1);
		return;
	}
	for (i = 0; i < 2; i++) {
		if (pp[i].live && *pp[i].status == 1 && vp_bool()) {
			if (vp_bool()) {
				*pp[i].status = -1;
				rc = (pp[i].cb)(pp[i].c);
				DEAD(rc, PROTO_CONN_ERROR);
				vp_witness("broken");
				return;
			}
			*pp[i].status = 0;
			if (*pp[!i].status == 0) {
				rc = (pp[i].cb)(pp[i].c);
				DEAD(rc, PROTO_CONN_CLOSED);
				vp_witness("closed");
				return;
			}
			rc = (pp[i].cb)(pp[i].c);
			vp_assert(rc == 0 && !dead, "the other direction goes on after one has ended");
			vp_witness("half closed");
			step(ev + 1);
			return;
		}
	}
}

int
main(void)
{
	int k, r = vp_int();

	decr = DECR;
	nopfs = vp_int();
	requirepfs = vp_int();
	nokeepalive = vp_int();
	timeo = vp_double();
	vp_assume(timeo >= 0);
	openfd[S] = 1;
	for (k = 0; k < 8; k++) {
		if (r == k) {
			failat = k ? k : 1000;
			C = proto_conn_create(S, SAS, SAB, decr, nopfs, requirepfs, nokeepalive, SECRET, timeo, callback_dead, &owner);
			if (nfail >= failat) {
				vp_assert(C == NULL && !dead && !sasfreed && openfd[S] && !openfd[T] && vp_alloc_live == 0, "failure to start leaves the caller's resources alone");
				vp_assert(!tm[0].pending && !tm[1].pending && !con.pending && !hs.pending, "nothing is left in progress");
				vp_witness("could not start");
				return (0);
			}
			vp_assert(C != NULL, "a connection starts");
			step(0);
			return (0);
		}
	}
	return (0);
}
