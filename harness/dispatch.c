/*
 * dispatch.c: accepting connections, the connection limit, re-resolution and
 * shutdown, for every order of events.  A tree of choices (see handshake.c).
 */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "alloc.h"
#include "dnsthread.h"
#include "events.h"
#include "network.h"
#include "sock.h"
#include "sock_util.h"
#include "proto_conn.h"
#include "dispatch.h"

#ifndef NEV
#define NEV 6
#endif
#define LS 3		/* The listening socket. */
#define NC 8

static int failat, nfail;
int sim_fail(void) { return (++nfail == failat); }

static int acc_pending, lsclosed, nsock, conndone, requested, shut;
static int (* acc_cb)(void *, int);
static void * acc_c;
static struct { int live; int s; struct sock_addr ** sas; int (* cb)(void *, int); void * c; } cn[NC];
static int ncn, nlive, maxconn;
static struct { int pending; int (* f)(void *); void * c; } tm;
static struct { int live, busy; int (* cb)(void *, struct sock_addr **); void * c; } dns;
static char lists[24];		/* Address lists: 0 free, 1 live. */
static int nlists, current, inshutdown, sockclosed[40];
#define LIST(i) ((struct sock_addr **)(void *)&lists[i])
#define IDX(p) ((int)((char *)(void *)(p) - lists))
static int nopfs, requirepfs, nokeepalive, decr;
static double timeo, rtime;
static int sabobj, secretobj;
#define SAB ((const struct sock_addr *)(const void *)&sabobj)
#define SECRET ((const struct proto_secret *)(const void *)&secretobj)
static const char * tgt = "target";
static void * D;

void *
network_accept(int s, int (* cb)(void *, int), void * c)
{

	vp_assert(s == LS && !lsclosed && !acc_pending, "accept on the listening socket, once at a time");
	vp_assert(nlive < maxconn, "no more connections than the limit are accepted");
	vp_assert(!requested, "no connections are accepted after a shutdown request");
	if (sim_fail())
		return (NULL);
	acc_pending = 1;
	acc_cb = cb;
	acc_c = c;
	return (&acc_pending);
}

void
network_accept_cancel(void * c)
{

	vp_assert(c == &acc_pending && acc_pending, "only a pending accept is cancelled");
	acc_pending = 0;
}

struct sock_addr **
sock_addr_duplist(struct sock_addr * const * p)
{
	int i = IDX(p), n;

	vp_assert(i == current && lists[i] == 1, "new connections use the latest addresses");
	if (sim_fail())
		return (NULL);
	n = nlists++;
	lists[n] = 1;
	return (LIST(n));
}

void
sock_addr_freelist(struct sock_addr ** p)
{
	int i;

	if (p == NULL)
		return;
	i = IDX(p);
	vp_assert(i >= 0 && i < nlists && lists[i] == 1, "address lists are freed once");
	lists[i] = 0;
}

void *
proto_conn_create(int s, struct sock_addr ** sas, const struct sock_addr * b, int d, int np, int rp, int nk,
    const struct proto_secret * k, double t, int (* cb)(void *, int), void * c)
{

	vp_assert(b == SAB && d == decr && np == nopfs && rp == requirepfs && nk == nokeepalive && k == SECRET && t == timeo, "connections get the daemon's settings");
	vp_assert(s == 10 + nsock - 1, "the accepted socket is used");
	vp_assert(IDX(sas) != current && lists[IDX(sas)] == 1, "each connection owns its addresses");
	vp_assert(nlive < maxconn, "the connection limit");
	if (sim_fail())
		return (NULL);
	cn[ncn].live = 1;
	cn[ncn].s = s;
	cn[ncn].sas = sas;
	cn[ncn].cb = cb;
	cn[ncn].c = c;
	nlive++;
	return (&cn[ncn++]);
}

static int
die(int i, int reason)
{

	cn[i].live = 0;
	nlive--;
	lists[IDX(cn[i].sas)] = 0;
	return ((cn[i].cb)(cn[i].c, reason));
}

int
proto_conn_drop(void * c, int reason)
{
	int i;

	vp_assert(inshutdown && reason == PROTO_CONN_CANCELLED, "connections are cut only by a shutdown");
	for (i = 0; i < ncn; i++) {
		if (c == &cn[i]) {
			vp_assert(cn[i].live, "a connection is dropped once");
			return (die(i, reason));
		}
	}
	vp_assert(0, "an existing connection is dropped");
	return (0);
}

void *
events_timer_register_double(int (* f)(void *), void * c, double t)
{

	vp_assert(t == rtime && !tm.pending, "re-resolve after the configured time");
	if (sim_fail())
		return (NULL);
	tm.pending = 1;
	tm.f = f;
	tm.c = c;
	return (&tm);
}

void
events_timer_cancel(void * c)
{

	vp_assert(c == &tm && tm.pending, "only a pending timer is cancelled");
	tm.pending = 0;
}

DNSTHREAD
dnsthread_spawn(void)
{

	vp_assert(rtime > 0.0 && !dns.live, "one resolver thread, if asked for");
	if (sim_fail())
		return (NULL);
	dns.live = 1;
	return ((DNSTHREAD)(void *)&dns);
}

int
dnsthread_resolveone(DNSTHREAD t, const char * a, int (* cb)(void *, struct sock_addr **), void * c)
{

	vp_assert((void *)t == (void *)&dns && dns.live && !dns.busy && a == tgt, "the target is resolved again, once at a time");
	if (sim_fail())
		return (-1);
	dns.busy = 1;
	dns.cb = cb;
	dns.c = c;
	return (0);
}

int
dnsthread_kill(DNSTHREAD t)
{

	vp_assert((void *)t == (void *)&dns && dns.live, "the resolver is killed once");
	dns.live = dns.busy = 0;
	return (0);
}

int
vp_close(int fd)
{

	if (fd == LS) {
		vp_assert(!lsclosed, "the listening socket is closed once");
		lsclosed = 1;
	} else {
		vp_assert(fd >= 10 && fd < 10 + nsock && !sockclosed[fd - 10], "sockets are closed once");
		sockclosed[fd - 10] = 1;
	}
	return (0);
}
void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

static void
shutdown_(void)
{
	int i;

	inshutdown = 1;
	dispatch_shutdown(D);
	vp_assert(nlive == 0 && !acc_pending && !tm.pending && !dns.live && lsclosed, "shutdown stops everything");
	for (i = 0; i < nlists; i++)
		vp_assert(lists[i] == 0, "all address lists are freed");
	vp_assert(vp_alloc_live == 0, "shutdown frees everything");
}

static void
invariant(void)
{

	vp_assert(nlive <= maxconn, "the connection limit");
	vp_assert(acc_pending == (nlive < maxconn && !requested), "connections are accepted exactly while there is room and no shutdown was requested");
	vp_assert(!!conndone == (requested && nlive == 0), "the end is announced exactly when it was requested and no connection is left");
	vp_assert(tm.pending + dns.busy == (rtime > 0.0), "re-resolution goes on");
	vp_assert(!lsclosed && lists[current] == 1, "listening");
}

static void
fatal(int rc)
{

	vp_assert(rc == -1, "resource failures stop the event loop");
#if NFAULT > 1
	vp_witness("resource failure");
#endif
}

static void step(int);

static void
after(int rc, int ev)
{

	if (nfail >= failat) {
		fatal(rc);
		return;
	}
	vp_assert(rc == 0, "the daemon goes on");
	step(ev + 1);
}

static void
step(int ev)
{
	int rc, i, old;

	invariant();
	if (ev == NEV || vp_bool()) {
		if (nlive == maxconn)
			vp_witness("shutdown at the limit");
		shutdown_();
		vp_witness("shutdown");
		return;
	}
	if (acc_pending && vp_bool()) {
		acc_pending = 0;
		if (vp_bool()) {
			rc = (acc_cb)(acc_c, -1);
			vp_assert(rc == -1, "a broken listening socket stops the daemon");
			return;
		}
		nsock++;
		old = nlive;
		rc = (acc_cb)(acc_c, 10 + nsock - 1);
		if (nfail >= failat) {
			vp_assert(nlive == old + 1 || sockclosed[nsock - 1], "a socket without a connection is closed");
			vp_assert(vp_alloc_live == 1 + nlive, "nothing is leaked");
			fatal(rc);
			return;
		}
		vp_assert(rc == 0 && nlive == old + 1, "a connection is made for the accepted socket");
		step(ev + 1);
		return;
	}
	for (i = 0; i < ncn; i++) {
		if (cn[i].live && vp_bool()) {
			rc = die(i, PROTO_CONN_ERROR);
			if (nfail >= failat) {
				fatal(rc);
				return;
			}
			vp_assert(rc == 0, "the end of one connection does not disturb the daemon");
			step(ev + 1);
			return;
		}
	}
	if (!requested && vp_bool()) {
		requested = 1;
		dispatch_request_shutdown(D);
		step(ev + 1);
		return;
	}
	if (tm.pending && vp_bool()) {
		tm.pending = 0;
		rc = (tm.f)(tm.c);
		if (nfail >= failat) {
			fatal(rc);
			return;
		}
		vp_assert(rc == 0, "resolution starts");
		step(ev + 1);
		return;
	}
	if (dns.busy && vp_bool()) {
		dns.busy = 0;
		if (vp_bool()) {
			after((dns.cb)(dns.c, NULL), ev);
		} else {
			old = current;
			current = nlists++;
			lists[current] = 1;
			rc = (dns.cb)(dns.c, LIST(current));
			vp_assert(lists[old] == 0, "old addresses are freed");
#if DNS
			vp_witness("new addresses");
#endif
			after(rc, ev);
		}
		return;
	}
}

int
main(void)
{
	int k, m, r = vp_int(), q = vp_int();

	decr = vp_int();
	nopfs = vp_int();
	requirepfs = vp_int();
	nokeepalive = vp_int();
	timeo = 5.0;
	rtime = DNS ? 60.0 : 0.0;
	current = 0;
	nlists = 1;
	lists[0] = 1;
	for (m = 1; m <= MAXC; m++) {
		if (q != m)
			continue;
		maxconn = m;
		for (k = 0; k < NFAULT; k++) {
			if (r == k) {
				failat = k ? k : 1000;
				D = dispatch_accept(LS, tgt, rtime, LIST(0), SAB, decr, nopfs, requirepfs, nokeepalive, SECRET, (size_t)m, timeo, &conndone);
				if (nfail >= failat) {
					vp_assert(D == NULL && !acc_pending && !tm.pending && !dns.live && !lsclosed && lists[0] == 1 && vp_alloc_live == 0, "failure to start leaves the caller's resources alone");
					return (0);
				}
				vp_assert(D != NULL, "the daemon starts");
				step(0);
				return (0);
			}
		}
	}
	return (0);
}
