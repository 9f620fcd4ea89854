/*
 * parsenum.c: numbers on the command line.  Strings of symbolic characters,
 * the C library's conversions as C99 describes them (strto.h).
 */
#include <errno.h>
#include <inttypes.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

#include "vp.h"
#include "strto.h"

static char s[64];
static size_t len;

/* The text has no NUL before its end. */
size_t
vp_strlen(const char * p)
{

	vp_assert(p == s, "the text itself is converted");
	return (len);
}
int vp_isspace(int c) { return (sim_space((char)c)); }
intmax_t vp_strtoimax(const char * p, char ** e, int b) { return (sim_strtoimax(p, e, b)); }
uintmax_t vp_strtoumax(const char * p, char ** e, int b) { return (sim_strtoumax(p, e, b)); }

static double dval;
static size_t dend;
static int drange;
double
vp_strtod(const char * p, char ** e)
{

	vp_assert(p == s, "the text itself is converted");
	if (e != NULL)
		*e = s + dend;
	if (drange)
		errno = ERANGE;
	return (dval);
}

#define isspace vp_isspace
#define strtoimax vp_strtoimax
#define strtoumax vp_strtoumax
#define strtod vp_strtod
#include "parsenum.h"

#ifdef FLOAT
int
main(void)
{
	double x = 3.0, y = 3.0, lo, hi;
	int rc, whole, trailing = vp_bool();

	len = vp_srange(0, 3);
	s[0] = 'z';
	s[1] = 'z';
	s[2] = 'z';
	s[len] = '\0';
	dend = vp_srange(0, 3);
	vp_assume(dend <= len);
	dval = vp_double();
	drange = vp_bool();
	lo = vp_double();
	hi = vp_double();
	vp_assume(lo <= hi);
	errno = vp_bool() ? EIO : 0;
	whole = (dend > 0 && (trailing || dend == len));

	rc = PARSENUM_EX(&x, s, lo, hi, 0, trailing);
	vp_assert(!rc == (whole && !drange && dval >= lo && dval <= hi), "accepted exactly if the text is a number in the range");
	vp_assert(rc || x == dval, "the value is the one written");
	vp_assert(errno == (!rc ? 0 : !whole ? EINVAL : ERANGE), "the error says what is wrong");

	/* As spiped and spipe use it. */
	rc = PARSENUM(&y, s, 0, INFINITY);
	whole = (dend > 0 && dend == len);
	vp_assert(!rc == (whole && !drange && dval >= 0), "times are not negative and not NaN");
	vp_assert(rc || y == dval, "the value is the one written");
	rc = PARSENUM(&y, s);
	vp_assert(!rc == (whole && !drange && dval == dval), "a number is a number");
	if (rc)
		vp_witness("refused");
	else
		vp_witness("accepted");
	return (0);
}
#else

typedef __int128 i128;
static void
check(int rc, int err, i128 x, i128 lo, i128 hi, int base, int trailing)
{
	uint64_t m;
	int neg, big, ok, whole;
	const char * e = sim_number(s, base, &neg, &m, &big);
	i128 v = neg ? -(i128)m : (i128)m;

	whole = (e != s && (trailing || e == s + len));
	ok = whole && !big && v >= lo && v <= hi;
	vp_assert(!rc == ok, "accepted exactly if the text is a number in the range");
	vp_assert(rc || x == v, "the value is the one written");
	vp_assert(err == (!rc ? 0 : !whole ? EINVAL : ERANGE), "the error says what is wrong");
	if (rc)
		vp_witness("refused");
#ifndef NOACC
	else
		vp_witness("accepted");
#endif
}

static void
one(size_t n)
{
#if TYPE == 0
	size_t x = 7;
	int rc = PARSENUM(&x, s);
	check(rc, errno, (i128)x, 0, SIZE_MAX, 0, 0);
#elif TYPE == 1
	uid_t x = 7;
	int rc = PARSENUM(&x, s);
	check(rc, errno, (i128)x, 0, UINT32_MAX, 0, 0);
#elif TYPE == 2
	long x = 7;
	int rc = PARSENUM_EX(&x, s, 1, 65535, 10, 0);
	check(rc, errno, (i128)x, 1, 65535, 10, 0);
#elif TYPE == 3
	int64_t lo = (int64_t)vp_u64(), hi = (int64_t)vp_u64();
	int64_t x = 7;
	int rc = PARSENUM(&x, s, lo, hi);
	check(rc, errno, (i128)x, lo, hi, 0, 0);
#elif TYPE == 4
	uint64_t lo = vp_u64(), hi = vp_u64();
	uint64_t x = 7;
	int rc = PARSENUM(&x, s, lo, hi);
	check(rc, errno, (i128)x, lo, hi, 0, 0);
#elif TYPE == 5
	/* Bounds beyond the type. */
	int64_t lo = (int64_t)vp_u64(), hi = (int64_t)vp_u64();
	uint8_t x = 7;
	int rc = PARSENUM(&x, s, lo, hi);
	check(rc, errno, (i128)x, lo > 0 ? lo : 0, hi < 255 ? hi : 255, 0, 0);
#elif TYPE == 6
	unsigned int x = 7;
	int rc = PARSENUM_EX(&x, s, 5, 1000, 16, 1);
	check(rc, errno, (i128)x, 5, 1000, 16, 1);
#elif TYPE == 7
	int x = 7;
	int rc = PARSENUM(&x, s, -12, 300);
	check(rc, errno, (i128)x, -12, 300, 0, 0);
#endif
	(void)n;
}

int
main(void)
{
	static const char pre[] = PRE;
	static char t[LEN + 1];
	size_t i, n = vp_srange(0, LEN), p = sizeof(pre) - 1;

	vp_fillarr(t);
	errno = vp_bool() ? EIO : 0;
	for (i = 0; i < p; i++)
		s[i] = pre[i];
	for (i = 0; i <= LEN; i++) {
		if (i == n) {
			s[p + i] = '\0';
			len = p + i;
			one(len);
			vp_done();
		}
		vp_assume(t[i] != '\0');
		s[p + i] = t[i];
	}
	return (0);
}
#endif
