from common import *
PROP = dict(
 id="P33", title="spipe: options reach the connection unchanged; status 0 only if it ended well",
 statement="For every sequence of options, spipe rejects wrong command lines with status 1 before doing anything, and otherwise makes one encrypting connection exactly as the options say (default timeout 5 s), copying standard input to it and it to standard output. Its status is 0 only when the connection has been closed properly and both copies are complete, or on SIGTERM; after a failed connection, handshake or transfer, or any startup failure, it is 1, never waits forever, and has released sockets, threads, key and addresses once.",
 quantifier=dict(over=["inputs", "fault_sequences", "schedules"], text="all sequences of up to 9 options, all outcomes of all calls, all ways and times for the connection to end"),
 why_tests_cant="The combinations of options, failing startup steps and ways to end are many; tests look at a few working transfers.",
 anchors=dict(files=["spipe/main.c"],
  mechanism=[dict(name="options, startup, clean-up", where="spipe/main.c:main"), dict(name="ends", where="spipe/main.c:callback_conndied, callback_graceful_shutdown")],
  observe_at=["calls out of main", "exit status"], hook_needed=None))
LEVEL_NOTE = "The real main() and callbacks, with the option macros replaced by a jump to any label, symbolic at each of 9 steps; the called functions are stubs which fail arbitrarily."
ASSUMPTIONS = ["words are recognized as the right options (P25), numbers are converted correctly (P24)", "the called functions keep their contracts (P05, P21, P22, P28, P29)", "cancelling or joining a thread which exists does not fail, except that cancelling a finished one may report ESRCH", "standard input comes to an end"]
OUTSIDE = "threads still running when the event loop itself has failed (the process exits at once); the getopt macros (replaced by a jump to any of the options)"
HARNESSES = [H("main", "spipemain.c", ["spipe/main.c"], incs=["spipe", "lib/proto"], defs=["-include", "optsim.h", "-Dpthread_cancel=vp_pcancel", "-Dpthread_join=vp_pjoin"],
  renames=["main", "fprintf", "strtod", "socketpair", "close", "exit"], hrenames=[], unwind=13, solver="cadical",
  bounds="9 options, all orders, values and outcomes")]
