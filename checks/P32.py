from common import *
PROP = dict(
 id="P32", title="spiped: options reach the dispatcher; each startup failure exits cleanly",
 statement="For every sequence of options, spiped rejects wrong command lines with status 1 before doing anything, and otherwise passes to the dispatcher exactly what the options say (defaults 100 connections, 5 s, 60 s; -n 0 is unlimited, -R never resolves again). It accepts nothing before the key is loaded, the socket is bound, the process is in the background with the right pid file (unless -F; with -D before resolving, which is repeated until it succeeds) and privileges are dropped if asked. Whatever fails, everything acquired is released once and the status is 1; it is 0 only after the event loop has ended normally.",
 quantifier=dict(over=["inputs", "fault_sequences"], text="all sequences of up to 10 options (thorough: 17) in any order, all values, all outcomes of all calls"),
 why_tests_cant="There are thousands of option combinations and a failure can hit at each startup step; the tests start spiped with a handful of working command lines.",
 anchors=dict(files=["spiped/main.c"],
  mechanism=[dict(name="options, startup, clean-up", where="spiped/main.c:main")],
  observe_at=["calls out of main", "exit status"], hook_needed=None))
LEVEL_NOTE = "The real main() with the option macros replaced by a jump to any label; the next option is symbolic at each of up to 17 steps (quick: 10); the called functions are stubs which fail arbitrarily."
ASSUMPTIONS = ["words are recognized as the right options (P25), numbers are converted correctly (P24)", "the called functions keep their contracts (P10, P21, P22, P26, P27, P29)"]
OUTSIDE = "more than three failures to resolve with -D; the getopt macros (replaced by a jump to any of the options)"
HARNESSES = [H(n, "spipedmain.c", ["spiped/main.c"], incs=["spiped"], defs=["-include", "optsim.h", "-D__NO_CTYPE", "-Dsignal=vp_signal", "-DSTEPS=%d" % k], tiers=t,
  renames=["main", "fprintf", "isspace", "strtod", "strtoumax", "free", "getpid", "_exit", "sleep", "close", "exit"], hrenames=[], unwind=21, solver="cadical", timeout=600,
  bounds="%d options, all orders, values and outcomes" % k) for n, k, t in [("main", 10, ("quick",)), ("mainall", 17, ("thorough",))]]
