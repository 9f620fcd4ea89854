from common import *
PROP = dict(
 id="P25", title="Each command-line option is recognized as itself, with its own argument",
 statement="For every command line, options are found in order, each as exactly the registered option it is (alone, packed like -da, or long), an option's argument is the rest of its word, the part after '=', or the next word, and never another option's; missing arguments, unknown options and arguments given to options which take none are reported; scanning stops at '--' or the first word which is no option, and nothing outside the words is read.",
 quantifier=dict(over=["inputs"], text="all command lines of up to 3 words of up to 4 characters and 2 words of up to 7"),
 why_tests_cant="Which character starts an argument depends on the packing and position of every word; the tests use one fixed style.",
 anchors=dict(files=["libcperciva/util/getopt.c", "libcperciva/util/getopt.h"],
  state=[dict(name="packedopts", meaning="rest of a word of packed options", where="getopt.c"), dict(name="optind", meaning="next word", where="getopt.c")],
  mechanism=[dict(name="scan", where="getopt.c:getopt"), dict(name="search", where="getopt.c:searchopt")],
  observe_at=["options, optarg and optind after each call"], hook_needed=None))
LEVEL_NOTE = "Four options (short and long, with and without argument), words of arbitrary characters, against a second reading of the same command line."
ASSUMPTIONS = []
OUTSIDE = "the GETOPT_SWITCH macros (setjmp); longer command lines"
def h(name, n, c, steps, **kw):
    return H(name, "getopt.c", ["libcperciva/util/getopt.c"], defs=["-DNARG=%d" % n, "-DCHARS=%d" % c, "-DSTEPS=%d" % steps],
      renames=["atexit", "fprintf", "abort", "strcmp", "strncmp", "strlen"], hrenames=[], unwind=12, solver="cadical", bounds="%d words of %d characters, %d steps" % (n, c, steps), **kw)
HARNESSES = [h("short", 3, 3, 5), h("long", 2, 7, 3), h("deep", 4, 4, 6, tiers=("thorough",), timeout=900)]
