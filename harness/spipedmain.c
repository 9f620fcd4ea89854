/*
 * spipedmain.c: spiped's main() for every sequence of options and every
 * outcome of what it calls.
 */
#include <errno.h>
#include <inttypes.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#include "vp.h"
#include "dispatch.h"
#include "setuidgid.h"
#include "sock.h"
#include "sock_util.h"

#define OPTARGS 1, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1, 0
#define OPTNAMES "-b", "-d", "-D", "-e", "-f", "-F", "-g", "-j", "-k", "-n", "-o", "-p", "-r", "-R", "-s", "--syslog", "-t", "-u", "-v"
enum { o_b, o_d, o_D, o_e, o_f, o_F, o_g, o_j, o_k, o_n, o_o, o_p, o_r, o_R, o_s, o_syslog, o_t, o_u, o_v, NOPT };
#ifndef STEPS
#define STEPS 17
#endif
#include "optsim_impl.h"

int vp_main(int, char **);

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }
void warnp_setprogname(const char * n) { (void)n; }
int vp_fprintf(FILE * f, const char * s, ...) { (void)f; (void)s; return (0); }
int vp_isspace(int c) { (void)c; return (0); }

/* The values of -n, -o and -r. */
static double val_o, val_r;
static uintmax_t val_n;
static int ok_o, ok_r, ok_n, numbad;

double
vp_strtod(const char * s, char ** e)
{
	int ok = (s == optargs[o_o]) ? ok_o : ok_r;
	double v = (s == optargs[o_o]) ? val_o : val_r;

	vp_assert(s == optargs[o_o] || s == optargs[o_r], "a time");
	*e = (char *)(uintptr_t)s + (ok ? 1 : 0);
	if (!ok || !(v >= 0))
		numbad = 1;
	return (v);
}
uintmax_t
vp_strtoumax(const char * s, char ** e, int b)
{

	vp_assert(s == optargs[o_n] && b == 0, "a number of connections");
	*e = (char *)(uintptr_t)s + (ok_n ? 1 : 0);
	if (!ok_n)
		numbad = 1;
	return (val_n);
}

/* What main() has acquired and done. */
struct sock_addr { int x; };
struct proto_secret { int x; };
static struct sock_addr AS, AB, AT;
static struct sock_addr * AL[2];
static struct proto_secret SK;
static char pidbuf[8], cookie[1];
static int have_s, have_b, have_t, have_K, have_fd, have_pid, have_disp;
static int failed, daemonized, privdone, syslogged, accepted, graceful, spun, spunok, resolves, pid1, intr, pidsuffix;
static const char * pidsrc;
static int * cd;

static int
fail(void)
{
	int f = vp_bool();

	failed |= f;
	return (f);
}

/* The command line must be rejected. */
static int
badline(void)
{
	int bad = optbad || numbad || optoperand || optdup;

	if (optcount[o_d] + optcount[o_e] != 1)
		bad = 1;
	if (optcount[o_f] && optcount[o_g])
		bad = 1;
	if (!optcount[o_k] || !optcount[o_s] || !optcount[o_t])
		bad = 1;
	if (optcount[o_R] && optcount[o_r] && val_r != 0.0 && val_r != 60.0)
		bad = 1;
	return (bad);
}
static int invalid;
int
sock_addr_validate(const char * a)
{
	int v = vp_bool();

	vp_assert(a == optargs[o_s] || a == optargs[o_t] || a == optargs[o_b], "checks an address");
	invalid |= v;
	return (v);
}
static void
goodline(void)
{

	vp_assert(!badline() && !invalid && optended, "does nothing on a wrong command line");
	vp_assert(!optcount[o_v], "does nothing when asked for its version");
	vp_assert(!failed, "does not go on after a failure");
}

int
libcperciva_asprintf(char ** p, const char * f, ...)
{
	va_list ap;

	goodline();
	vp_assert(!have_pid, "one pid file name");
	va_start(ap, f);
	pidsrc = va_arg(ap, const char *);
	va_end(ap);
	pidsuffix = (f[2] == '.');
	if (fail())
		return (-1);
	have_pid = 1;
	*p = pidbuf;
	return (3);
}
void
vp_free(void * p)
{

	if (p == NULL)
		return;
	vp_assert(p == pidbuf && have_pid, "frees the name once");
	have_pid = 0;
}
pid_t vp_getpid(void) { pid1 = vp_bool(); return (pid1 ? 1 : 5); }
void vp__exit(int rc) { vp_assert(intr && rc == 0, "exits on SIGINT as init"); vp_witness("SIGINT"); vp_done(); exit(0); }
typedef void sighandler(int);
sighandler *
vp_signal(int n, sighandler * h)
{

	vp_assert(pid1 && n == SIGINT, "only as init");
	if (vp_bool()) {
		intr = 1;
		h(SIGINT);
		vp_assert(0, "has exited");
	}
	return (vp_bool() ? SIG_ERR : SIG_DFL);
}
unsigned int vp_sleep(unsigned int n) { vp_assert(optcount[o_D] && n >= 1, "waits for the name service only with -D"); return (0); }
int
daemonize(const char * p)
{

	goodline();
	vp_assert(!optcount[o_F] && !daemonized, "daemonizes once, and not with -F");
	vp_assert(p == pidbuf && have_pid, "the pid file");
	vp_assert(optcount[o_p] ? (pidsrc == optargs[o_p] && !pidsuffix) : (pidsrc == optargs[o_s] && pidsuffix), "the right pid file");
	vp_assert(optcount[o_D] ? !have_s : (have_fd && have_K), "at once with -D, otherwise when ready");
	daemonized = 1;
	return (fail() ? -1 : 0);
}
void
warnp_syslog(int on)
{

	vp_assert(on && daemonized && !failed && optcount[o_syslog], "syslog as asked");
	syslogged = 1;
}
static int
notyet(void)
{

	goodline();
	vp_assert(optcount[o_D] && !optcount[o_F] ? daemonized : 1, "with -D, in the background");
	if (optcount[o_D]) {
		/* Failures are repeated; a few of them are modelled. */
		if (resolves >= 3)
			return (0);
		resolves++;
		return (vp_bool());
	}
	return (fail());
}
struct sock_addr *
sock_resolve_one(const char * a, int port)
{

	vp_assert(port == 0 ? (a == optargs[o_s] && !have_s) : (a == optargs[o_b] && optcount[o_b] && !have_b), "resolves source and bind addresses");
	if (notyet())
		return (NULL);
	if (port) {
		have_b = 1;
		return (&AB);
	}
	have_s = 1;
	return (&AS);
}
struct sock_addr **
sock_resolve(const char * a)
{

	vp_assert(a == optargs[o_t] && !have_t, "resolves the target");
	if (notyet())
		return (NULL);
	AL[0] = fail() ? NULL : &AT;
	have_t = 1;
	return (AL);
}
void
sock_addr_free(struct sock_addr * a)
{

	if (a == NULL)
		return;
	if (a == &AS) {
		vp_assert(have_s, "frees the source once");
		have_s = 0;
	} else {
		vp_assert(a == &AB && have_b, "frees the bind address once");
		vp_assert(!have_disp, "not while in use");
		have_b = 0;
	}
}
void
sock_addr_freelist(struct sock_addr ** l)
{

	if (l == NULL)
		return;
	vp_assert(l == AL && have_t, "frees the targets once");
	have_t = 0;
}
struct proto_secret *
proto_crypt_secret(const char * f)
{

	goodline();
	vp_assert(f == optargs[o_k] && !have_K && !privdone, "loads the key before dropping privileges");
	if (fail())
		return (NULL);
	have_K = 1;
	return (&SK);
}
void
proto_crypt_secret_free(struct proto_secret * k)
{

	vp_assert(k == &SK && have_K && !have_disp, "frees the key once, when unused");
	have_K = 0;
}
int
sock_listener(const struct sock_addr * a)
{

	goodline();
	vp_assert(a == &AS && have_s && !have_fd && !privdone, "listens on the source, with privileges");
	if (fail())
		return (-1);
	have_fd = 1;
	return (0);
}
int
vp_close(int fd)
{

	vp_assert(fd == 0 && have_fd, "closes the socket once");
	have_fd = 0;
	return (vp_bool() ? -1 : 0);
}
int
setuidgid(const char * u, int g)
{

	goodline();
	vp_assert(optcount[o_u] && u == optargs[o_u] && !privdone, "drops privileges as asked");
	vp_assert(g != SETUIDGID_SGROUP_IGNORE, "leaves supplementary groups");
	vp_assert(have_fd && have_K && (optcount[o_F] || daemonized), "after everything that needs them");
	privdone = 1;
	return (fail() ? -1 : 0);
}
void *
dispatch_accept(int s, const char * tgt, double rtime, struct sock_addr ** sas, const struct sock_addr * sab,
    int decr, int nopfs, int reqpfs, int nka, const struct proto_secret * K, size_t n, double timeo, int * done)
{
	double r = (optcount[o_r] && val_r != 0.0) ? val_r : 60.0;
	double o = (optcount[o_o] && val_o != 0.0) ? val_o : 5.0;
	size_t m = !optcount[o_n] ? 100 : (val_n == 0) ? SIZE_MAX : (size_t)val_n;

	goodline();
	vp_assert(!accepted, "one dispatcher");
	accepted = 1;
	vp_assert(privdone == optcount[o_u], "nothing is accepted with privileges that are to be dropped");
	vp_assert(daemonized == !optcount[o_F], "in the background unless -F");
	vp_assert(syslogged == (daemonized && optcount[o_syslog]), "messages go where they should");
	vp_assert(s == 0 && have_fd && sas == AL && have_t && K == &SK && have_K, "its socket, targets and key");
	vp_assert(sab == (optcount[o_b] ? &AB : NULL) && have_b == optcount[o_b], "-b");
	vp_assert(tgt == optargs[o_t], "-t");
	vp_assert(optcount[o_R] ? rtime == 0.0 : rtime == r, "-r, -R");
	vp_assert(!decr == !optcount[o_d], "-d, -e");
	vp_assert(!nopfs == !optcount[o_f] && !reqpfs == !optcount[o_g], "-f, -g");
	vp_assert(!nka == !optcount[o_j], "-j");
	vp_assert(n == m, "-n");
	vp_assert(timeo == o, "-o");
	vp_assert(*done == 0, "not done yet");
	cd = done;
	if (fail())
		return (NULL);
	/* It owns the socket and the targets now. */
	have_fd = have_t = 0;
	have_disp = 1;
	return (cookie);
}
void
dispatch_shutdown(void * c)
{

	vp_assert(c == cookie && have_disp, "shuts down its dispatcher once");
	have_disp = 0;
}
static int reqs;
void dispatch_request_shutdown(void * c) { vp_assert(c == cookie && have_disp, "its dispatcher"); reqs++; }
static int (* gf)(void *);
static void * gc;
int
graceful_shutdown_initialize(int (* f)(void *), void * c)
{

	goodline();
	vp_assert(have_disp && !graceful, "waits for SIGTERM");
	graceful = 1;
	gf = f;
	gc = c;
	return (fail() ? -1 : 0);
}
void graceful_shutdown_manual(void) { vp_assert(0, "not used"); }
int
events_spin(int * done)
{

	goodline();
	vp_assert(graceful && have_disp && done == cd && !spun, "runs until the dispatcher is done");
	spun = 1;
	if (vp_bool()) {
		vp_assert(gf(gc) == 0 && reqs == 1, "SIGTERM asks the dispatcher to stop");
		vp_witness("SIGTERM");
	}
	if (fail())
		return (-1);
	*done = 1;
	spunok = 1;
	return (0);
}

void
vp_exit(int rc)
{
	int bad;

	if (!optended) {
		/* While reading the options; nothing has been acquired. */
		if (rc == 0)
			vp_assert(optcount[o_v], "the version");
		else
			vp_assert(rc == 1 && (optbad || numbad || optdup || (optcount[o_d] && optcount[o_e])), "rejects wrong options only");
		vp_assert(!resolves && !have_s && !have_pid, "before doing anything");
		vp_done();
		exit(0);
	}
	bad = badline() || invalid;
	vp_assert(!have_s && !have_b && !have_t && !have_K && !have_fd && !have_pid && !have_disp, "everything is released");
	if (rc == 0) {
		vp_assert(spunok && !failed && !bad, "success only after serving");
		vp_witness("served");
	} else {
		vp_assert(rc == 1, "status 1");
		vp_assert(bad || failed, "fails only for a reason");
		if (!bad && daemonized)
			vp_witness("failed late");
		if (bad)
			vp_witness("rejected");
	}
	vp_done();
	exit(0);
}

int
main(void)
{
	static char name[] = "spiped";
	char * argv[] = { name, name, NULL };

	val_o = vp_double();
	val_r = vp_double();
	val_n = vp_u64();
	ok_o = vp_bool();
	ok_r = vp_bool();
	ok_n = vp_bool();
	vp_main(2, argv);
	vp_assert(0, "main does not return");
	return (0);
}
