/*
 * getopt.c: the command line, read against a straightforward reading of the
 * usual conventions.  Options -a, -b (with argument), --cd, --ef (with
 * argument); arguments of symbolic characters.
 */
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "getopt.h"

int vp_atexit(void (* f)(void)) { (void)f; return (0); }
int vp_fprintf(FILE * f, const char * s, ...) { (void)f; (void)s; return (0); }
void vp_abort(void) { vp_assert(0, "never aborts"); }

#define MAXC 8
static char a[NARG][MAXC + 1];
static char * argv[NARG + 2];
static int argc;

static int
eq(const char * x, const char * y)
{

	while (*x == *y && *x != '\0') {
		x++;
		y++;
	}
	return (*x == *y);
}

int vp_strcmp(const char * x, const char * y) { return (!eq(x, y)); }
int
vp_strncmp(const char * x, const char * y, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++) {
		if (x[i] != y[i])
			return (1);
		if (x[i] == '\0')
			return (0);
	}
	return (0);
}
size_t
vp_strlen(const char * s)
{
	size_t n;

	for (n = 0; s[n] != '\0'; n++)
		continue;
	return (n);
}

/* The reading: which option comes next (0..3), 4 missing argument, 5 unknown, -1 none. */
static int ind = 1;
static const char * pack, * arg;
static int
next(void)
{
	static const char * const longs[] = { "--cd", "--ef" };
	const char * s;
	char c;
	size_t j;
	int k, r;

	arg = NULL;
	if (pack == NULL) {
		if (ind >= argc)
			return (-1);
		s = argv[ind];
		if (s[0] != '-' || s[1] == '\0')
			return (-1);
		if (s[1] == '-') {
			ind++;
			if (s[2] == '\0')
				return (-1);
			for (k = 0; k < 2; k++) {
				for (j = 0; j < 4; j++)
					if (s[j] != longs[k][j])
						break;
				if (j < 4 || (s[4] != '\0' && s[4] != '='))
					continue;
				if (k == 0)
					return (s[4] == '=' ? 5 : 2);
				if (s[4] == '=')
					arg = &s[5];
				else if (ind < argc)
					arg = argv[ind++];
				return ((arg != NULL) ? 3 : 4);
			}
			return (5);
		}
		pack = &s[1];
	}
	c = *pack++;
	if (*pack == '\0') {
		pack = NULL;
		ind++;
	}
	if (c == 'a')
		return (0);
	if (c != 'b')
		return (5);
	if (pack != NULL) {
		arg = pack;
		pack = NULL;
		ind++;
	} else if (ind < argc)
		arg = argv[ind++];
	r = (arg != NULL) ? 1 : 4;
	return (r);
}

static const char * const opts[] = { "-a", "-b", "--cd", "--ef" };

static void
one(void)
{
	const char * ch;
	size_t l;
	int i, e;

	ch = libcperciva_getopt(argc, argv);
	vp_assert(ch == GETOPT_DUMMY, "options are registered first");
	getopt_setrange(6);
	for (i = 0; i < 4; i++)
		getopt_register_opt(opts[i], (size_t)i, i & 1);
	getopt_register_missing(4);
	getopt_initialized = 1;

	for (i = 0; i < STEPS; i++) {
		e = next();
		ch = libcperciva_getopt(argc, argv);
		if (e == -1) {
			vp_assert(ch == NULL, "options end at the first which is none");
			vp_assert(optind == ind, "what follows the options starts there");
			vp_witness("end");
			vp_done();
		}
		vp_assert(ch != NULL, "every option is found");
		l = getopt_lookup(ch);
		if (e < 4) {
			vp_assert(l == (size_t)e, "each option is recognized as itself");
			vp_assert(eq(ch, opts[e]), "each option is recognized as itself");
			vp_assert(optarg == arg, "the argument is the rest of the option, or the next word");
			vp_witness("option");
		} else if (e == 4)
			vp_assert(l == 4, "a missing argument is reported");
		else {
			vp_assert(l > 5, "an unknown option is reported");
			vp_witness("unknown");
			/* The program gives up then. */
			vp_done();
		}
	}
}

int
main(void)
{
	static char t[NARG][MAXC + 1];
	static char name[] = "/x/p";
	size_t i, j, n;

	for (i = 0; i < NARG; i++)
		for (j = 0; j < CHARS; j++)
			t[i][j] = (char)vp_u8();
	argv[0] = name;
	argc = vp_range(1, NARG + 1);
	for (i = 0; i < NARG; i++) {
		for (j = 0; j < CHARS; j++)
			a[i][j] = t[i][j];
		argv[i + 1] = ((int)i + 1 < argc) ? a[i] : NULL;
	}
	(void)n;
	one();
	return (0);
}
