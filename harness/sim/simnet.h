/* network_read / network_write with the completion order left to the harness. */
#ifndef SIMNET_H_
#define SIMNET_H_
#include <stddef.h>
#include <stdint.h>
#include <unistd.h>

#ifndef SIM_NFD
#define SIM_NFD 2
#endif
#define SIM_FD0 100		/* Descriptors SIM_FD0 .. SIM_FD0 + SIM_NFD - 1. */

struct simop {
	int pending;
	uint8_t * rbuf;
	const uint8_t * wbuf;
	size_t len;
	size_t min;
	int (* cb)(void *, ssize_t);
	void * cookie;
};
extern struct simop sim_r[SIM_NFD], sim_w[SIM_NFD];
int sim_fail(void);		/* The harness decides: does this request fail? */
extern int sim_failed;		/* Did one? */
extern int sim_closed[SIM_NFD];	/* The harness sets this when the fd goes away. */

/* Finish the operation: result ${len}. */
int sim_read_done(int, ssize_t);
int sim_write_done(int, ssize_t);
#endif
