from common import *
PROP = dict(
 id="P27", title="Daemonizing: the parent returns success only after the pid file is complete",
 statement="For every outcome of every system call, the parent exits successfully only after a byte from the child, and the child sends it only after it has its own session and has written its own pid, in decimal, completely to the pid file; a failure anywhere is reported by the parent (which notices the child's death because it holds no write end), no second process ever continues as the daemon, and no descriptor or memory is left behind.",
 quantifier=dict(over=["fault_sequences"], text="both processes; every system call and allocation failing, interrupted calls repeated"),
 why_tests_cant="The order of pid file and notification matters only in races and on full disks; tests see the successful run.",
 anchors=dict(files=["libcperciva/util/daemonize.c", "libcperciva/util/ipc_sync.c", "libcperciva/util/noeintr.c"],
  mechanism=[dict(name="fork", where="daemonize.c:daemonize"), dict(name="pid file", where="daemonize.c:writepid"), dict(name="notification", where="ipc_sync.c:ipc_sync_wait, ipc_sync_signal")],
  observe_at=["fork, setsid, pipe, read, write, close, file calls", "_exit"], hook_needed=None))
LEVEL_NOTE = "Every sequence of outcomes, up to three interruptions of read or write and one of close."
ASSUMPTIONS = ["closing a pipe fails only when interrupted", "a read from a pipe without writers returns end of file"]
OUTSIDE = "more interruptions"
HARNESSES = [H("daemonize", "daemonize.c", ["libcperciva/util/daemonize.c", "libcperciva/util/ipc_sync.c", "libcperciva/util/noeintr.c"], defs=["-DVP_ALLOC_HOOK=sim_fail", "-D_exit=vp_exit"], extra=["alloc.c"],
  renames=["malloc", "free", "pipe", "fork", "setsid", "close", "read", "write", "fopen", "getpid", "fprintf", "fclose"], hrenames=[], unwind=8, bounds="all outcomes, parent and child")]
