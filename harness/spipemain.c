/*
 * spipemain.c: spipe's main() for every sequence of options, every outcome of
 * what it calls, and every way its connection can end.
 */
#include <sys/socket.h>
#include <errno.h>
#include <math.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#include "vp.h"
#include "proto_conn.h"
#include "pushbits.h"
#include "sock.h"
#include "sock_util.h"

#define OPTNAMES "-b", "-f", "-g", "-j", "-k", "-o", "-t", "-v"
#define OPTARGS 1, 0, 0, 0, 1, 1, 1, 0
enum { o_b, o_f, o_g, o_j, o_k, o_o, o_t, o_v, NOPT };
#ifndef STEPS
#define STEPS 9
#endif
#include "optsim_impl.h"

int vp_main(int, char **);

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
void warnp_setprogname(const char * n) { (void)n; }
int vp_fprintf(FILE * f, const char * s, ...) { (void)f; (void)s; return (0); }

static double val_o;
static int ok_o, numbad;
double
vp_strtod(const char * s, char ** e)
{

	vp_assert(s == optargs[o_o], "a time");
	*e = (char *)(uintptr_t)s + (ok_o ? 1 : 0);
	if (!ok_o || !(val_o >= 0))
		numbad = 1;
	return (val_o);
}

struct sock_addr { int x; };
struct proto_secret { int x; };
static struct sock_addr AB, AT;
static struct sock_addr * AL[2];
static struct proto_secret SK;
static char cookie[1];
static int have_b, have_t, have_K, have_s0, have_s1, have_conn;
static int failed, graceful, spun, spunok, created, diedbad, died, termed, closefail;
static int invalid, spinfail;
static pthread_t * thr_out, * thr_in;	/* socket to stdout, stdin to socket */
static int out_run, in_run, out_cancel, in_cancel;	/* running (not joined), cancelled */
static int (* conncb)(void *, int);
static void * conncc;
static int (* gf)(void *);
static void * gc;

static int
fail(void)
{
	int f = vp_bool();

	failed |= f;
	return (f);
}
static int
badline(void)
{
	int bad = optbad || numbad || optoperand || optdup;

	if (optcount[o_f] && optcount[o_g])
		bad = 1;
	if (!optcount[o_k] || !optcount[o_t])
		bad = 1;
	return (bad);
}
int
sock_addr_validate(const char * a)
{
	int v = vp_bool();

	vp_assert(a == optargs[o_t] || a == optargs[o_b], "checks an address");
	invalid |= v;
	return (v);
}
static void
goodline(void)
{

	vp_assert(!badline() && !invalid && optended, "does nothing on a wrong command line");
	vp_assert(!optcount[o_v], "does nothing when asked for its version");
	vp_assert(!failed, "does not go on after a failure");
}
struct sock_addr *
sock_resolve_one(const char * a, int port)
{

	goodline();
	vp_assert(port == 1 && a == optargs[o_b] && optcount[o_b] && !have_b, "resolves the bind address");
	if (fail())
		return (NULL);
	have_b = 1;
	return (&AB);
}
struct sock_addr **
sock_resolve(const char * a)
{

	goodline();
	vp_assert(a == optargs[o_t] && !have_t, "resolves the target");
	if (fail())
		return (NULL);
	AL[0] = fail() ? NULL : &AT;
	have_t = 1;
	return (AL);
}
void
sock_addr_free(struct sock_addr * a)
{

	if (a == NULL)
		return;
	vp_assert(a == &AB && have_b, "frees the bind address once");
	have_b = 0;
}
void
sock_addr_freelist(struct sock_addr ** l)
{

	if (l == NULL)
		return;
	vp_assert(l == AL && have_t, "frees the targets once");
	have_t = 0;
}
struct proto_secret *
proto_crypt_secret(const char * f)
{

	goodline();
	vp_assert(f == optargs[o_k] && !have_K, "loads the key");
	if (fail())
		return (NULL);
	have_K = 1;
	return (&SK);
}
void
proto_crypt_secret_free(struct proto_secret * k)
{

	vp_assert(k == &SK && have_K, "frees the key once");
	have_K = 0;
}
int
vp_socketpair(int d, int t, int p, int s[2])
{

	goodline();
	vp_assert(d == AF_UNIX && t == SOCK_STREAM && p == 0 && !have_s0, "a pair of sockets");
	if (fail())
		return (-1);
	s[0] = 11;
	s[1] = 12;
	have_s0 = have_s1 = 1;
	return (0);
}
int
vp_close(int fd)
{

	if (fd == 11) {
		vp_assert(have_s0, "closes its end once");
		vp_assert((!out_run && !in_run) || spinfail, "not while a thread uses it");
		have_s0 = 0;
	} else {
		vp_assert(fd == 12 && have_s1, "closes the other end once");
		have_s1 = 0;
	}
	return (vp_bool() ? -1 : 0);
}
void *
proto_conn_create(int s, struct sock_addr ** sas, const struct sock_addr * sab, int decr, int nopfs, int reqpfs,
    int nka, const struct proto_secret * K, double timeo, int (* cb)(void *, int), void * cc)
{
	double o = (optcount[o_o] && val_o != 0.0) ? val_o : 5.0;

	goodline();
	vp_assert(!created, "one connection");
	created = 1;
	vp_assert(s == 12 && have_s1 && sas == AL && have_t && K == &SK && have_K, "its socket, targets and key");
	vp_assert(sab == (optcount[o_b] ? &AB : NULL) && have_b == optcount[o_b], "-b");
	vp_assert(decr == 0, "encrypts");
	vp_assert(!nopfs == !optcount[o_f] && !reqpfs == !optcount[o_g], "-f, -g");
	vp_assert(!nka == !optcount[o_j], "-j");
	vp_assert(timeo == o, "-o");
	conncb = cb;
	conncc = cc;
	if (fail())
		return (NULL);
	have_s1 = have_t = 0;
	have_conn = 1;
	return (cookie);
}
int
proto_conn_drop(void * c, int reason)
{

	vp_assert(c == cookie && have_conn, "drops a live connection once");
	(void)reason;
	have_conn = 0;
	died = 1;
	return (conncb(conncc, reason));
}
int
pushbits(int in, int out, pthread_t * thr)
{

	goodline();
	vp_assert(have_conn && have_s0, "when connected");
	if (in == 11) {
		vp_assert(out == STDOUT_FILENO && !out_run && thr != thr_in, "socket to stdout");
		if (fail())
			return (-1);
		thr_out = thr;
		*thr = 100;
		out_run = 1;
	} else {
		vp_assert(in == STDIN_FILENO && out == 11 && !in_run && thr != thr_out, "stdin to socket");
		if (fail())
			return (-1);
		thr_in = thr;
		*thr = 101;
		in_run = 1;
	}
	return (0);
}
int
vp_pcancel(pthread_t t)
{

	vp_assert((t == 100 && out_run) || (t == 101 && in_run), "cancels a thread that exists");
	if (t == 100)
		out_cancel = 1;
	else
		in_cancel = 1;
	/* A thread which has ended by itself may be reported as missing. */
	return (vp_bool() ? ESRCH : 0);
}
int
vp_pjoin(pthread_t t, void ** r)
{

	(void)r;
	vp_assert((t == 100 && out_run) || (t == 101 && in_run), "waits for a thread that exists, once");
	/* Waiting ends: cancelled, or its input can come to an end. */
	if (t == 100) {
		vp_assert(out_cancel || !have_conn, "would wait for the peer forever");
		out_run = 0;
	} else
		in_run = 0;
	return (0);
}
int
graceful_shutdown_initialize(int (* f)(void *), void * c)
{

	goodline();
	vp_assert(have_conn && out_run && in_run && !graceful, "waits for SIGTERM");
	graceful = 1;
	gf = f;
	gc = c;
	return (fail() ? -1 : 0);
}
static int manual;
void
graceful_shutdown_manual(void)
{

	vp_assert(graceful && !manual && !termed, "requests a shutdown once");
	manual = 1;
	vp_assert(gf(gc) == 0, "stops the threads");
}
int
events_spin(int * done)
{
	int r, i;

	goodline();
	vp_assert(graceful && have_conn && !spun && *done == 0, "runs");
	spun = 1;
	for (i = 0; i < 2; i++) {
		/* Events may still happen after the one that ends the loop. */
		if (have_conn && vp_bool()) {
			/* The connection ends. */
			r = vp_range(0, 4);
			r = (r == 0) ? PROTO_CONN_CLOSED : (r == 1) ? PROTO_CONN_CANCELLED : (r == 2) ? PROTO_CONN_CONNECT_FAILED : (r == 3) ? PROTO_CONN_HANDSHAKE_FAILED : PROTO_CONN_ERROR;
			diedbad = (r != PROTO_CONN_CLOSED && r != PROTO_CONN_CANCELLED);
			have_conn = 0;
			died = 1;
			vp_assert(conncb(conncc, r) == 0, "accepts the end");
			vp_assert(*done, "stops when the connection has ended");
			vp_assert(!diedbad || (!in_run && !out_run), "the threads are stopped after an error");
			vp_assert(diedbad || termed || (!in_cancel && !out_cancel), "the threads finish their work otherwise");
		} else if (!manual && !termed && vp_bool()) {
			termed = 1;
			vp_assert(gf(gc) == 0, "SIGTERM stops the threads");
			vp_assert(*done && !in_run && !out_run, "and the program");
			vp_witness("SIGTERM");
		}
	}
	/* The event loop itself can fail, whatever has happened in it. */
	spinfail = !*done || vp_bool();
	if (spinfail) {
		failed = 1;
		return (-1);
	}
	spunok = 1;
	return (0);
}

void
vp_exit(int rc)
{
	int bad;

	if (!optended) {
		if (rc == 0)
			vp_assert(optcount[o_v], "the version");
		else
			vp_assert(rc == 1 && (optbad || numbad || optdup), "rejects wrong options only");
		vp_assert(!created && !have_t && !have_K, "before doing anything");
		vp_done();
		exit(0);
	}
	bad = badline() || invalid;
	vp_assert(!have_b && !have_t && !have_K && !have_s0 && !have_s1, "everything is released");
	vp_assert(!have_conn || (termed && !failed), "no connection is left, except on SIGTERM");
	vp_assert(spinfail || (!in_run && !out_run), "no thread is left");
	if (rc == 0) {
		vp_assert(spunok && !failed && !bad && !diedbad, "success only if the connection ended well");
		vp_assert(!in_run && !out_run, "and all data has been copied");
		if (died)
			vp_witness("copied");
	} else {
		vp_assert(rc == 1, "status 1");
		vp_assert(bad || failed || diedbad, "fails only for a reason");
		if (diedbad)
			vp_witness("connection failed");
		if (bad)
			vp_witness("rejected");
	}
	vp_done();
	exit(0);
}

int
main(void)
{
	static char name[] = "spipe";
	char * argv[] = { name, name, NULL };

	val_o = vp_double();
	ok_o = vp_bool();
	vp_main(2, argv);
	vp_assert(0, "main does not return");
	return (0);
}
