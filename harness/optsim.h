/*
 * optsim.h: the command line as an arbitrary sequence of options: included
 * before the real main(), in place of getopt.h.  GETOPT_SWITCH jumps to any of
 * the labels.  (That words are recognized as the right options is property
 * P25.)
 */
#ifndef OPTSIM_H_
#define OPTSIM_H_
#define GETOPT_H_

#include <unistd.h>

const char * optsim_next(int, char * const *);
int optsim_line(const char *);
void optsim_opt(const char *, int);
void optsim_bad(void);
void optsim_other(void);
#define getopt	libcperciva_getopt
#define optarg	libcperciva_optarg
#define optind	libcperciva_optind
#define opterr	libcperciva_opterr
#define optreset	libcperciva_optreset
extern const char * optarg;
extern int optind, opterr, optreset;

#define GETOPT(argc, argv)	optsim_next(argc, argv)
#define GETOPT_SWITCH(ch)	switch (optsim_line(ch))
#define GETOPT_OPT(os)		GETOPT_OPT_(os, __LINE__)
#define GETOPT_OPT_(os, ln)	GETOPT_OPT__(os, ln)
#define GETOPT_OPT__(os, ln)	case ln: optsim_opt(os, 0); goto optsim_ ## ln; optsim_ ## ln
#define GETOPT_OPTARG(os)	GETOPT_OPTARG_(os, __LINE__)
#define GETOPT_OPTARG_(os, ln)	GETOPT_OPTARG__(os, ln)
#define GETOPT_OPTARG__(os, ln)	case ln: optsim_opt(os, 1); goto optsim_ ## ln; optsim_ ## ln
#define GETOPT_MISSING_ARG	GETOPT_MISSING_ARG_(__LINE__)
#define GETOPT_MISSING_ARG_(ln)	GETOPT_MISSING_ARG__(ln)
#define GETOPT_MISSING_ARG__(ln)	case ln: optsim_bad(); goto optsim_ ## ln; optsim_ ## ln
#define GETOPT_DEFAULT		GETOPT_DEFAULT_(__LINE__)
#define GETOPT_DEFAULT_(ln)	GETOPT_DEFAULT__(ln)
#define GETOPT_DEFAULT__(ln)	default: optsim_other(); goto optsim_ ## ln; optsim_ ## ln

#endif
