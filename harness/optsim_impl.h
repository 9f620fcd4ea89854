/*
 * optsim_impl.h: the harness's side of optsim.h.  The harness defines OPTNAMES
 * (an initializer list), OPTARGS (which of them take an argument), NOPT and
 * STEPS.
 */
static const char * const optnames[NOPT] = { OPTNAMES };
static const int opttakes[NOPT] = { OPTARGS };
static int optcount[NOPT];	/* How often each option has been given. */
static int optdup, optbad, optsteps, optended, optoperand, optchosen;
static char optargs[NOPT][2];

const char * optarg;
int optind = 1, opterr = 1, optreset = 1;

static int
opteq(const char * a, const char * b)
{

	while (*a == *b && *a != '\0') {
		a++;
		b++;
	}
	return (*a == *b);
}
const char *
optsim_next(int argc, char * const * argv)
{
	int i;

	(void)argv;
	vp_assert(!optended, "not called after the end");
	if (optsteps == 0)
		for (i = 0; i < NOPT; i++)
			optargs[i][0] = '7';
	optarg = NULL;
	optchosen = 0;
	if (optsteps++ >= STEPS || vp_bool()) {
		optended = 1;
		optoperand = vp_bool();
		optind = argc - optoperand;
		return (NULL);
	}
	return ("-?");
}
/* Go to any label: 0 is the default. */
int optsim_line(const char * c) { (void)c; return (vp_range(0, 1000)); }
void
optsim_opt(const char * os, int hasarg)
{
	int i;

	/* Reached from the option before? */
	if (optchosen)
		return;
	optchosen = 1;
	for (i = 0; i < NOPT; i++) {
		if (opteq(os, optnames[i])) {
			vp_assert(hasarg == opttakes[i], "takes an argument or not, as documented");
			optdup |= (optcount[i] > 0);
			optcount[i]++;
			if (hasarg)
				optarg = optargs[i];
			return;
		}
	}
	vp_assert(0, "knows the documented options only");
}
void optsim_bad(void) { if (!optchosen) optbad = 1; optchosen = 1; }
void
optsim_other(void)
{

	optsim_bad();
}
