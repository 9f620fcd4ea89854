/*
 * pushbits.c: one copying thread of spipe, with every sequence of lengths and
 * outcomes of read(2) and write(2), and cancellation in any of them.
 */
#include <sys/socket.h>
#include <sys/types.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "vp.h"
#include "alloc.h"
#include "pushbits.h"

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

#define IN 7
#define OUT 9
#define NREAD 3
#define NWRITE 3

static size_t pos, written;	/* Bytes of the stream read and written. */
static size_t watch;		/* One byte of the stream, */
static uint8_t value;		/* its value. */
#ifndef VP_BUFSIZ
#define VP_BUFSIZ_ 8192
static const uint8_t * start;
#else
#define VP_BUFSIZ_ VP_BUFSIZ
#endif
static int eof, fatal, nread, nwrite, shut, shuterr, thread, finished, tries;
static void (* cleanf)(void *);
static void * cleana;
static pthread_t thr;
static int total;

/* The thread has ended: by itself, or by being cancelled. */
static void
ended(int cancelled)
{

	vp_assert(shut == 1, "the output was shut down once when the thread ended");
	vp_assert(cancelled || eof, "the thread ends by itself only at the end of its input");
	vp_assert(cancelled || written == pos, "everything read was written");
	vp_assert(vp_alloc_live == 0, "the buffer is released");
	if (cancelled)
		vp_witness("cancelled");
	else if (pos > VP_BUFSIZ_ || total)
		vp_witness("copied much");
	vp_done();
}
static void
cancelpoint(void)
{

	if (!vp_bool())
		return;
	vp_assert(cleanf != NULL, "a cancelled thread cleans up");
	cleanf(cleana);
	ended(1);
}
void
vp_cleanup_push(void (* f)(void *), void * a)
{

	vp_assert(cleanf == NULL, "one handler");
	cleanf = f;
	cleana = a;
}
void
vp_cleanup_pop(int e)
{
	void (* f)(void *) = cleanf;

	vp_assert(f != NULL, "pops what was pushed");
	cleanf = NULL;
	if (e)
		f(cleana);
}

ssize_t
vp_read(int fd, void * b, size_t n)
{
	size_t k;
	int c;

	vp_assert(thread && fd == IN && n > 0 && !eof && !fatal && shut == 0, "reads its input");
	cancelpoint();
	if (nread >= NREAD) {
		vp_assume(eof == 0);
		eof = 1;
		return (0);
	}
	nread++;
	nwrite = 0;
	c = vp_range(0, 3);
	if (c == 3) {
		errno = EINTR;
		return (-1);
	}
	if (c == 2) {
		fatal = 1;
		errno = EIO;
		return (-1);
	}
	if (c == 1) {
		eof = 1;
		return (0);
	}
	k = vp_srange(1, n);
#ifdef VP_SYM
	__CPROVER_assert(__CPROVER_w_ok(b, n), "VP: reads into its buffer");
#else
	memset(b, 0, n);
#endif
#ifdef VP_BUFSIZ
	if (watch >= pos && watch - pos < k)
		((uint8_t *)b)[watch - pos] = value;
#else
	/* Positions restart with every read: the copy works a buffer at a time. */
	vp_assert(written == pos, "everything was written before reading more");
	total |= (nread > 1);
	pos = written = 0;
	start = b;
#endif
	pos += k;
	return ((ssize_t)k);
}
ssize_t
vp_write(int fd, const void * b, size_t n)
{
	size_t k;
	int c;

	vp_assert(thread && fd == OUT && !eof && !fatal && shut == 0, "writes to its output");
	vp_assert(n > 0 && n <= pos - written, "writes nothing but what it read");
	cancelpoint();
	nwrite++;
	c = vp_range(0, (nwrite >= NWRITE) ? 1 : 3);
	if (c == 3) {
		errno = EINTR;
		return (-1);
	}
	if (c == 1) {
		fatal = 1;
		errno = EPIPE;
		return (-1);
	}
	k = (c == 2) ? vp_srange(1, n) : n;
#ifdef VP_BUFSIZ
	if (watch >= written && watch - written < k)
		vp_assert(((const uint8_t *)b)[watch - written] == value, "every byte in its place");
#else
	vp_assert((const uint8_t *)b == start, "continues where the last write stopped");
	start += k;
#endif
	written += k;
	return ((ssize_t)k);
}
int
vp_shutdown(int fd, int how)
{

	vp_assert(thread && fd == OUT && how == SHUT_WR, "shuts down the output for writing");
	vp_assert(shut == 0, "shuts down once");
	shut = 1;
	shuterr = vp_range(0, 2);
	if (shuterr == 0)
		return (0);
	if (shuterr == 2)
		fatal = 1;
	errno = (shuterr == 1) ? ENOTSOCK : EIO;
	return (-1);
}
void
vp_exit(int rc)
{

	vp_assert(fatal && rc == 1, "the process fails exactly when a system call failed");
	vp_witness("failed");
	vp_done();
	exit(0);
}

int
pthread_create_blocking_np(pthread_t * restrict t, const pthread_attr_t * restrict a,
    void * (* f)(void *), void * restrict c)
{

	(void)a;
	vp_assert(t == &thr, "the caller's thread identifier");
	vp_assert(++tries == 1, "one thread");
	if (vp_bool())
		return (EAGAIN);
	if (vp_bool()) {
		/* The caller goes on while the thread runs. */
		finished = 1;
		return (0);
	}
	thread = 1;
	f(c);
	vp_assert(!fatal, "the thread does not ignore a failure");
	ended(0);
	return (0);
}

int
main(void)
{
	int rc;

	vp_alloc_mayfail = 1;
	watch = vp_srange(0, (NREAD + 1) * VP_BUFSIZ_);
	value = vp_u8();
	rc = pushbits(IN, OUT, &thr);
	vp_assert((rc == 0) == (finished == 1), "success exactly when there is a thread");
	if (rc != 0) {
		vp_assert(vp_alloc_live == 0, "nothing left behind");
		vp_witness("no thread");
	} else {
		vp_assert(vp_alloc_live == 1, "the thread has its buffer");
		vp_witness("thread");
	}
	return (0);
}
