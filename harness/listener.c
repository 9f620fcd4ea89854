/*
 * listener.c: sock_listener() with every outcome of every system call.
 */
#include <sys/types.h>
#include <sys/socket.h>
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <unistd.h>

#include "vp.h"
#include "sock.h"
#include "sock_internal.h"

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

static struct sock_addr A;
static struct sockaddr name;
static int fd = -1, reused, bound, listening, nonblock, bad;

int
vp_socket(int d, int t, int p)
{

	vp_assert(fd == -1 && !bad && d == 123 && t == 77 && p == 0, "the right kind of socket");
	if (vp_bool()) {
		bad = 1;
		return (-1);
	}
	return (fd = vp_range(0, 4));
}
int
vp_setsockopt(int s, int l, int o, const void * v, socklen_t n)
{

	vp_assert(s == fd && l == SOL_SOCKET && o == SO_REUSEADDR && n == sizeof(int) && *(const int *)v != 0, "may reuse the address");
	vp_assert(!bound, "before binding");
	reused = 1;
	if (vp_bool()) {
		errno = vp_bool() ? ENOPROTOOPT : EIO;
		if (errno != ENOPROTOOPT)
			bad = 1;
		return (-1);
	}
	return (0);
}
int
vp_bind(int s, const struct sockaddr * a, socklen_t n)
{

	vp_assert(s == fd && a == &name && n == 21 && !bound && reused && !bad, "binds to the address");
	bound = 1;
	if (vp_bool()) {
		bad = 1;
		return (-1);
	}
	return (0);
}
int
vp_listen(int s, int n)
{

	vp_assert(s == fd && n > 0 && bound && !listening && !bad, "listens once bound");
	listening = 1;
	if (vp_bool()) {
		bad = 1;
		return (-1);
	}
	return (0);
}
int
vp_fcntl(int s, int c, int v)
{

	vp_assert(s == fd && c == F_SETFL && (v & O_NONBLOCK) && !bad, "non-blocking");
	nonblock = 1;
	if (vp_bool()) {
		bad = 1;
		return (-1);
	}
	return (0);
}
int
vp_close(int s)
{

	vp_assert(s == fd && fd != -1 && bad, "closes what is open, after a failure");
	fd = -1;
	return (vp_bool() ? -1 : 0);
}

int
main(void)
{
	int s;

	A.ai_family = 123;
	A.ai_socktype = 77;
	A.name = &name;
	A.namelen = 21;
	s = sock_listener(&A);
	if (s == -1) {
		vp_assert(bad && fd == -1, "fails only if something failed, and leaves nothing open");
		vp_witness("failed");
	} else {
		vp_assert(!bad && s == fd && bound && listening && nonblock, "a non-blocking listening socket");
		vp_witness("listening");
	}
	return (0);
}
