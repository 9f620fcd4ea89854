/* Runtime of vp.h: symbolic under CBMC, file-driven when compiled natively. */
#include <stdint.h>
#include <stddef.h>

#include "vp.h"

#ifdef VP_SYM

uint64_t nondet_vp_u64(void);
uint32_t nondet_vp_u32(void);
uint16_t nondet_vp_u16(void);
uint8_t nondet_vp_u8(void);

uint64_t vp_u64(void) { uint64_t vp_in = nondet_vp_u64(); return (vp_in); }
uint32_t vp_u32(void) { uint32_t vp_in = nondet_vp_u32(); return (vp_in); }
uint16_t vp_u16(void) { uint16_t vp_in = nondet_vp_u16(); return (vp_in); }
uint8_t vp_u8(void) { uint8_t vp_in = nondet_vp_u8(); return (vp_in); }

#else

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

/*
 * Replay file: one unsigned decimal per line, name in $VP_REPLAY.  When the
 * values run out, further inputs are zero (they did not matter to the solver).
 */
static uint64_t * vals;
static size_t nvals, cur;
static int loaded;

static void
vp_load(void)
{
	const char * fn = getenv("VP_REPLAY");
	FILE * f;
	unsigned long long v;
	size_t cap = 0;

	loaded = 1;
	if (fn == NULL || (f = fopen(fn, "r")) == NULL)
		return;
	while (fscanf(f, "%llu", &v) == 1) {
		if (nvals == cap) {
			cap = cap ? cap * 2 : 1024;
			vals = realloc(vals, cap * sizeof(uint64_t));
			if (vals == NULL)
				abort();
		}
		vals[nvals++] = v;
	}
	fclose(f);
}

static uint64_t
next(void)
{
	if (!loaded)
		vp_load();
	return ((cur < nvals) ? vals[cur++] : 0);
}

uint64_t vp_u64(void) { return (next()); }
uint32_t vp_u32(void) { return ((uint32_t)next()); }
uint16_t vp_u16(void) { return ((uint16_t)next()); }
uint8_t vp_u8(void) { return ((uint8_t)next()); }

static void
say(const char * s)
{
	ssize_t r = write(1, s, strlen(s));
	(void)r;
}

void
vp_native_assume(int c)
{
	if (!c) {
		say("VP-ASSUME-FAILED\n");
		_exit(77);
	}
}

void
vp_native_assert(int c, const char * msg, const char * file, int line)
{
	if (!c) {
		char b[512];
		snprintf(b, sizeof(b), "VP-ASSERT-FAILED %s:%d: %s\n", file,
		    line, msg);
		say(b);
		_exit(42);
	}
}

void
vp_native_witness(const char * msg)
{
	say("VP-WITNESS ");
	say(msg);
	say("\n");
}

#endif

int vp_int(void) { return ((int)vp_u32()); }
long vp_long(void) { return ((long)vp_u64()); }
size_t vp_size(void) { return ((size_t)vp_u64()); }
int vp_bool(void) { return (vp_u8() & 1); }

double
vp_double(void)
{
	union { uint64_t u; double d; } x;

	x.u = vp_u64();
	return (x.d);
}

int
vp_range(int lo, int hi)
{
	int v = vp_int();

	vp_assume(v >= lo && v <= hi);
	return (v);
}

size_t
vp_srange(size_t lo, size_t hi)
{
	size_t v = vp_size();

	vp_assume(v >= lo && v <= hi);
	return (v);
}

void
vp_fill(uint8_t * buf, size_t len)
{
	size_t i;

	for (i = 0; i < len; i++)
		buf[i] = vp_u8();
}
