from common import *
PROP = dict(
 id="P28", title="spipe's copying threads write every byte they read, once and in order",
 statement="For every sequence of lengths and outcomes of read and write, each copying thread writes exactly the bytes it read, in order, and then (or when cancelled) shuts down its output for writing exactly once and releases its buffer; at the end of its input everything has been written before that. A failing read, write or shutdown (other than of a non-socket) ends the process with status 1 instead of looking like an end of input; a thread that cannot be started is reported to the caller, who otherwise goes on only once it runs.",
 quantifier=dict(over=["fault_sequences", "schedules"], text="all lengths and outcomes, cancellation at every read and write, all wake-ups while starting"),
 why_tests_cant="Partial writes, interrupted calls and errors in the middle of a stream are rare; the tests copy through pipes that never fill.",
 anchors=dict(files=["spipe/pushbits.c", "libcperciva/util/noeintr.c", "lib/util/pthread_create_blocking_np.c"],
  mechanism=[dict(name="copy loop", where="pushbits.c:workthread"), dict(name="whole writes", where="noeintr.c:noeintr_write"), dict(name="clean-up", where="pushbits.c:workthread_cleanup"), dict(name="start", where="pthread_create_blocking_np.c")],
  observe_at=["read, write, shutdown, exit", "pthread calls"], hook_needed=None))
LEVEL_NOTE = "Up to three reads of any length, each with up to three writes (a fourth read sees the end of input); up to two wake-ups without reason."
ASSUMPTIONS = ["mutex and condition operations on valid objects succeed", "write does not return 0"]
OUTSIDE = "more calls; failing mutex operations"
HARNESSES = [
 *[H(n, "pushbits.c", ["spipe/pushbits.c", "libcperciva/util/noeintr.c"], defs=["-include", "pushpthread.h"] + d, extra=["alloc.c"], incs=["spipe"],
  renames=["malloc", "free", "read", "write", "shutdown", "exit"], hrenames=[], unwind=5, bounds=b, solver="cadical") for n, d, b in [
   ("pushbytes", ["-DVP_BUFSIZ=8"], "contents: buffer scaled to 8 bytes, 3 reads, 3 writes each, any lengths, all outcomes, cancellation anywhere"),
   ("pushpos", [], "positions: real buffer of 8192 bytes, likewise")]],
 H("pcreate", "pcreate.c", ["lib/util/pthread_create_blocking_np.c"], extra=["alloc.c"], hrenames=[],
  defs=["-DVP_ALLOC_HOOK=sim_fail", "-DVP_SCRAMBLE=sizeof(void *) * 2", "-Dpthread_mutex_init=vp_minit", "-Dpthread_mutex_destroy=vp_mdestroy", "-Dpthread_cond_init=vp_cinit", "-Dpthread_cond_destroy=vp_cdestroy",
   "-Dpthread_mutex_lock=vp_mlock", "-Dpthread_mutex_unlock=vp_munlock", "-Dpthread_cond_signal=vp_csignal", "-Dpthread_cond_wait=vp_cwait", "-Dpthread_create=vp_pcreate", "-Dpthread_join=vp_pjoin", "-Dpthread_cancel=vp_pcancel"],
  renames=["malloc", "free"], unwind=5, bounds="all schedules, all failures to allocate or create"),
]
