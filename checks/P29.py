from common import *
PROP = dict(
 id="P29", title="SIGTERM begins a graceful shutdown exactly once, within a second",
 statement="Whenever SIGTERM arrives after initialization, the caller's function is called exactly once, with its cookie, at the next check, and checks happen at least once a second until then; a request made by the program itself has that effect at once. It is never called without a request; after it the original handler is back (a second SIGTERM has its usual effect) and no timer remains; failures to check or to begin are returned to the event loop, and no timer survives exit.",
 quantifier=dict(over=["schedules", "fault_sequences"], text="SIGTERM between any two calls, requests at any step, all failures"),
 why_tests_cant="The signal can arrive between any two steps; tests send it when the program is idle.",
 anchors=dict(files=["lib/util/graceful_shutdown.c"],
  mechanism=[dict(name="flag", where="graceful_shutdown.c:graceful_shutdown_handler"), dict(name="check", where="graceful_shutdown.c:graceful_shutdown")],
  observe_at=["callback", "signal, timer calls"], hook_needed=None))
LEVEL_NOTE = "Histories of up to eight steps after initialization, the signal arriving before and after every call out of the code."
ASSUMPTIONS = ["the event loop runs timers when due (P09, P11)", "the program requests a shutdown at most once, and not after it has begun"]
OUTSIDE = "longer histories; the signal between two instructions that make no call"
HARNESSES = [H("graceful", "graceful.c", ["lib/util/graceful_shutdown.c"], defs=["-Dsignal=vp_signal", "-Datexit=vp_atexit", "-DSTEPS=8"], hrenames=[], unwind=12,
  bounds="8 steps, all signal arrivals and failures")]
