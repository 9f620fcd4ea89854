/*
 * daemonize.c: parent and child of daemonize(), with every outcome of every
 * system call.
 */
#include <sys/types.h>
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "vp.h"
#include "alloc.h"
#include "daemonize.h"

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

static int failed;
int
sim_fail(void)
{
	int f = vp_bool();

	failed |= f;
	return (f);
}

static int r = -1, w = -1, ropen, wopen, forked, parent, child, session, pidstate, poked, reads, eintr, done;
static pid_t mypid;
static int dummyfile;
#define F ((FILE *)&dummyfile)

int
vp_pipe(int fd[2])
{

	if (sim_fail())
		return (-1);
	/* Any two descriptors: 0 and 1 if these are closed. */
	r = fd[0] = vp_range(0, 5);
	w = fd[1] = vp_range(0, 5);
	vp_assume(r != w);
	ropen = wopen = 1;
	return (0);
}
pid_t
vp_fork(void)
{
	int c = vp_range(0, 2);

	vp_assert(!forked && ropen && wopen, "forks once, with the pipe");
	forked = 1;
	if (c == 0) {
		failed = 1;
		errno = EAGAIN;
		return (-1);
	}
	if (c == 1) {
		child = 1;
		return (0);
	}
	parent = 1;
	return (77);
}
pid_t
vp_setsid(void)
{

	vp_assert(child && !session, "only the child leaves the session");
	if (sim_fail())
		return (-1);
	session = 1;
	return (5);
}
int
vp_close(int fd)
{
	int c = vp_range(0, eintr ? 0 : 1);

	vp_assert((fd == r && ropen) || (fd == w && wopen), "closes what is open");
	if (c == 1) {
		eintr = 1;
		errno = EINTR;
		return (-1);
	}
	if (fd == r)
		ropen = 0;
	else
		wopen = 0;
	return (0);
}
ssize_t
vp_read(int fd, void * b, size_t n)
{
	int c = vp_range(0, ++reads > 3 ? 2 : 3);

	vp_assert(parent && fd == r && ropen && n == 1, "the parent waits for a byte");
	vp_assert(!wopen, "the parent would notice the child's death");
	vp_assert(!done, "waits once");
	if (c == 3) {
		errno = EINTR;
		return (-1);
	}
	done = 1;
	if (c == 2) {
		failed = 1;
		errno = EIO;
		return (-1);
	}
	if (c == 1) {
		failed = 1;
		return (0);
	}
	*(char *)b = 0;
	poked = 1;
	return (1);
}
ssize_t
vp_write(int fd, const void * b, size_t n)
{
	int c = vp_range(0, ++reads > 3 ? 1 : 2);

	(void)b;
	vp_assert(child && fd == w && wopen && n == 1, "the child sends a byte");
	vp_assert(pidstate == 3 && session, "only when it has its session and its pid is written");
	vp_assert(!poked, "sends once");
	if (c == 2) {
		errno = EINTR;
		return (-1);
	}
	if (c == 1) {
		failed = 1;
		errno = EPIPE;
		return (-1);
	}
	poked = 1;
	return (1);
}
static char path[] = "x.pid";
FILE *
vp_fopen(const char * p, const char * m)
{

	vp_assert(child && p == path && m[0] == 'w', "the child writes the pid file");
	vp_assert(pidstate == 0, "writes it once");
	if (sim_fail())
		return (NULL);
	pidstate = 1;
	return (F);
}
pid_t vp_getpid(void) { vp_assert(child, "it is the child's pid"); return (mypid); }
int
vp_fprintf(FILE * f, const char * s, ...)
{
	va_list ap;

	vp_assert(f == F && pidstate == 1, "the pid goes to its file");
	vp_assert(s[0] == '%' && s[1] == 'j' && s[2] == 'd' && s[3] == '\0', "the pid in decimal");
	va_start(ap, s);
	vp_assert(va_arg(ap, intmax_t) == mypid, "it is the child's pid");
	va_end(ap);
	if (sim_fail())
		return (-1);
	pidstate = 2;
	return (3);
}
int
vp_fclose(FILE * f)
{

	vp_assert(f == F && (pidstate == 1 || pidstate == 2), "the pid file is closed");
	if (sim_fail()) {
		pidstate = -1;
		return (EOF);
	}
	pidstate = (pidstate == 2) ? 3 : -1;
	return (0);
}
void
vp_exit(int status)
{

	vp_assert(forked, "only a forked process exits");
	if (parent) {
		vp_assert(poked && !failed && status == 0, "the parent leaves when the child has started");
		vp_assert(!ropen && !wopen && vp_alloc_live == 0, "everything is released");
		vp_witness("parent done");
	} else {
		vp_assert(child && failed, "the child dies only after a failure");
		vp_witness("child failed");
	}
#ifdef VP_SYM
	vp_done();
#else
	exit(0);
#endif
}

int
main(void)
{
	int rc;

	mypid = vp_int();
	vp_assume(mypid > 0);
	rc = daemonize(path);
	if (rc == 0) {
		vp_assert(child && poked && session && pidstate == 3 && !failed, "the daemon runs only when everything worked");
		vp_assert(!ropen && !wopen, "the pipe is gone");
		vp_witness("daemon");
	} else {
		vp_assert(rc == -1 && !child && failed, "failures are reported by the parent, never by a second process");
		vp_assert(!wopen && !ropen, "the pipe is gone");
		vp_witness("failed");
	}
	vp_assert(vp_alloc_live == 0, "everything is released");
	return (0);
}
