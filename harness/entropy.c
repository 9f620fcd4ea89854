/*
 * entropy.c: bytes from the operating system, with short reads, end of file,
 * errors at every call.
 */
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "vp.h"
#include "alloc.h"
#include "entropy.h"

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

#define N 48
static uint8_t buf[N + 2];
static int nopen, nclose, isopen, failed, nallocs;
static size_t got;

int
sim_fail(void)
{
	int f = vp_bool();

	nallocs++;
	failed |= f;
	return (f);
}

int
vp_open(const char * p, int flags, ...)
{

	vp_assert(strcmp(p, "/dev/urandom") == 0, "the system's random device is opened");
	vp_assert((flags & O_ACCMODE) == O_RDONLY, "the random device is only read");
	vp_assert(!isopen, "opened once");
	if (vp_bool()) {
		failed = 1;
		errno = EMFILE;
		return (-1);
	}
	isopen = 1;
	nopen++;
	return (0);	/* 0 is a valid descriptor. */
}

ssize_t
vp_read(int fd, void * b, size_t n)
{
	static int small;
	size_t k, c = vp_srange(0, (++small > 5) ? 1 : 4);

	vp_assert(fd == 0 && isopen, "reads from the open device");
	vp_assert(n <= N - got && n > 0, "reads what is missing");
	vp_assert((uint8_t *)b == &buf[1 + got], "to where it is missing");
	if (c == 0) {
		failed = 1;
		errno = EIO;
		return (-1);
	}
	if (c == 1) {
		failed = 1;
		return (0);
	}
	k = (c == 2) ? 1 : (c == 3) ? (n + 1) / 2 : n;
	got += k;
	return ((ssize_t)k);
}

int
vp_close(int fd)
{
	static int eintr;
	size_t c = vp_srange(0, eintr ? 1 : 2);

	vp_assert(fd == 0 && isopen, "closes the open device");
	if (c == 2) {
		eintr++;
		errno = EINTR;
		return (-1);
	}
	isopen = 0;
	nclose++;
	if (c == 1) {
		failed = 1;
		errno = EIO;
		return (-1);
	}
	return (0);
}

int
main(void)
{
	static const size_t lens[] = { 0, 1, 8, 32, 48 };
	size_t i, n, x = vp_srange(0, 4);
	int rc;

	for (i = 0; i < N + 2; i++)
		buf[i] = 0x5a;
	n = lens[x];
	/* What is missing is counted from the end. */
	got = N - n;
	rc = entropy_read(&buf[1 + got], n);
	vp_assert(!isopen && nopen == nclose, "the device is closed");
	vp_assert(vp_alloc_live == 0, "nothing is left allocated");
	vp_assert(rc == (failed ? -1 : 0), "fails exactly if something failed");
	if (rc == 0) {
		vp_assert(got == N, "everything was read");
		vp_witness("filled");
	} else
		vp_witness("failed");
	/* The reads wrote nothing here: every byte was asked of the system. */
	for (i = 0; i < N + 2; i++)
		vp_assert(buf[i] == 0x5a, "nothing but the system writes the bytes");
	return (0);
}
