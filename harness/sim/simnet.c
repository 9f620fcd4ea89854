#include <stddef.h>
#include <stdint.h>
#include <unistd.h>

#include "vp.h"
#include "network.h"
#include "simnet.h"

struct simop sim_r[SIM_NFD], sim_w[SIM_NFD];
int sim_failed, sim_closed[SIM_NFD];

static void *
start(struct simop * ops, int fd, uint8_t * rbuf, const uint8_t * wbuf, size_t len, size_t min,
    int (* cb)(void *, ssize_t), void * cookie)
{
	struct simop * o;

	vp_assert(fd >= SIM_FD0 && fd < SIM_FD0 + SIM_NFD, "network operations use the connection's own descriptors");
	vp_assert(!sim_closed[fd - SIM_FD0], "no network operation on a closed descriptor");
	vp_assert(len > 0 && min <= len, "network operations have a positive length");
	if (sim_fail()) {
		sim_failed = 1;
		return (NULL);
	}
	o = &ops[fd - SIM_FD0];
	vp_assert(!o->pending, "at most one operation of a kind is in progress on a descriptor");
	o->pending = 1;
	o->rbuf = rbuf;
	o->wbuf = wbuf;
	o->len = len;
	o->min = min;
	o->cb = cb;
	o->cookie = cookie;
	return (o);
}

void *
network_read(int fd, uint8_t * buf, size_t len, size_t min, int (* cb)(void *, ssize_t), void * cookie)
{

	return (start(sim_r, fd, buf, NULL, len, min, cb, cookie));
}

void *
network_write(int fd, const uint8_t * buf, size_t len, size_t min, int (* cb)(void *, ssize_t), void * cookie)
{

	return (start(sim_w, fd, NULL, buf, len, min, cb, cookie));
}

void
network_read_cancel(void * c)
{
	struct simop * o = c;
	int i, ok = 0;

	for (i = 0; i < SIM_NFD; i++)
		ok |= (o == &sim_r[i]);
	vp_assert(ok && o->pending, "only a read in progress is cancelled");
	o->pending = 0;
}

void
network_write_cancel(void * c)
{
	struct simop * o = c;
	int i, ok = 0;

	for (i = 0; i < SIM_NFD; i++)
		ok |= (o == &sim_w[i]);
	vp_assert(ok && o->pending, "only a write in progress is cancelled");
	o->pending = 0;
}

int
sim_read_done(int n, ssize_t len)
{

	sim_r[n].pending = 0;
	return ((sim_r[n].cb)(sim_r[n].cookie, len));
}

int
sim_write_done(int n, ssize_t len)
{

	sim_w[n].pending = 0;
	return ((sim_w[n].cb)(sim_w[n].cookie, len));
}
