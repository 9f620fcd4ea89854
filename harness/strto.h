#ifndef STRTO_H_
#define STRTO_H_
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <stdint.h>

/*
 * strtoimax() and strtoumax() as C99 7.20.1.4 has them.  The harness's own
 * reading of a numeral, sim_number(), says what it is worth.
 */
static int
sim_space(char c)
{

	return (c == ' ' || (c >= '\t' && c <= '\r'));
}

static int
sim_digit(char c, int base)
{
	int d;

	if (c >= '0' && c <= '9')
		d = c - '0';
	else if (c >= 'a' && c <= 'z')
		d = c - 'a' + 10;
	else if (c >= 'A' && c <= 'Z')
		d = c - 'A' + 10;
	else
		return (-1);
	return ((d < base) ? d : -1);
}

/*
 * Returns where the numeral ends (s if there is none), its sign and
 * magnitude; big is set if it is 2^64 or more.  Reads all of s, so that the
 * positions stay constants.
 */
size_t vp_strlen(const char *);
static const char *
sim_number(const char * s, int base, int * neg, uint64_t * mag, int * big)
{
	/* 0 space, 1 sign, 2 a first zero, 3 the x of 0x, 4 digits, 5 over. */
	int st = 0, d, b = base;
	size_t i, n = vp_strlen(s), end = 0;
	uint64_t m = 0;

	*neg = 0;
	*big = 0;
	for (i = 0; i < n; i++) {
		if (st == 0 && sim_space(s[i]))
			continue;
		if (st == 0 && (s[i] == '-' || s[i] == '+')) {
			*neg = (s[i] == '-');
			st = 1;
			continue;
		}
		if (base == 0 || base == 16) {
			if (st < 2 && s[i] == '0') {
				st = 2;
				if (base == 0)
					b = 8;
				end = i + 1;
				continue;
			}
			if (st == 2 && (s[i] == 'x' || s[i] == 'X')) {
				st = 3;
				b = 16;
				continue;
			}
			if (st < 2 && base == 0)
				b = 10;
		}
		d = (st == 5) ? -1 : sim_digit(s[i], b);
		if (d < 0) {
			st = 5;
			continue;
		}
		st = 4;
		end = i + 1;
		if (m > UINT64_MAX / (uint64_t)b || (m == UINT64_MAX / (uint64_t)b && (uint64_t)d > UINT64_MAX % (uint64_t)b))
			*big = 1;
		m = m * (uint64_t)b + (uint64_t)d;
	}
	*mag = m;
	return (s + end);
}

static inline intmax_t
sim_strtoimax(const char * s, char ** e, int base)
{
	uint64_t m;
	int neg, big;
	const char * end = sim_number(s, base, &neg, &m, &big);

	if (e != NULL)
		*e = (char *)(uintptr_t)end;
	if (big || m > (uint64_t)INT64_MAX + (uint64_t)neg) {
		errno = ERANGE;
		return (neg ? INTMAX_MIN : INTMAX_MAX);
	}
	return ((intmax_t)(neg ? 0 - m : m));
}

static inline uintmax_t
sim_strtoumax(const char * s, char ** e, int base)
{
	uint64_t m;
	int neg, big;
	const char * end = sim_number(s, base, &neg, &m, &big);

	if (e != NULL)
		*e = (char *)(uintptr_t)end;
	if (big) {
		errno = ERANGE;
		return (UINTMAX_MAX);
	}
	return (neg ? 0 - m : m);
}
#endif
