from common import *
PROP = dict(
 id="P13", title="The event loop runs what is due, in order, and stops exactly when told",
 statement="One run of the event loop runs every event which is due, immediate events by priority and registration order before ready network events before expired timers, never blocks while something is due, and otherwise blocks no longer than until the first timer expires. It stops at the first callback returning non-zero, error or interrupt, returns that status, and runs nothing afterwards; an interrupt does not linger, and spinning ends as soon as the completion flag is set. Cancelled immediate events never run.",
 quantifier=dict(over=["schedules", "histories", "fault_sequences"], text="all combinations of due events, callback actions and failures; all sequences of immediate registrations, cancellations and fetches"),
 why_tests_cant="Starvation, a swallowed status or a lost interrupt needs events of several kinds to become due at the same time.",
 anchors=dict(files=["libcperciva/events/events.c", "libcperciva/events/events_immediate.c"],
  mechanism=[dict(name="one run", where="events.c:events_run_internal"), dict(name="spin", where="events.c:events_spin"), dict(name="immediate queue", where="events_immediate.c:events_immediate_get"), dict(name="interrupt", where="events.c:events_interrupt")],
  state=[dict(name="heads", meaning="immediate queue per priority", where="libcperciva/events/events_immediate.c")],
  observe_at=["callbacks run and their order", "waits", "returned status"], hook_needed=None))
LEVEL_NOTE = "All combinations within the bounds: one initially due event of each kind, arbitrary callback actions, one failure; four immediate-queue operations at three priorities."
ASSUMPTIONS = ["timers and sockets honour P12 and P11", "the record pools (mpool.h) are replaced with malloc and free"]
OUTSIDE = "more simultaneous events, selectstats accounting"
HARNESSES = [
H("run","evrun.c",["libcperciva/events/events.c"],renames=["atexit"],hrenames=[],unwind=8, incs=["sim/mp"],leak=True, bounds="at most one immediate, two network and one timer event, two more registered by callbacks, one failure"),
H("spin","evrun.c",["libcperciva/events/events.c"],defs=["-DSPIN","-DNADD=1"],renames=["atexit"],hrenames=[],unwind=8, incs=["sim/mp"],leak=True, bounds="as run, at most three waits"),
H("queue","immed.c",["libcperciva/events/events_immediate.c"],defs=["-DNSTEP=4","-DNFAULT=0"],unwind=40, fs=64,incs=["sim/mp"], bounds="4 operations, priorities 0, 3 and 31"),
H("queuefault","immed.c",["libcperciva/events/events_immediate.c"],defs=["-DNSTEP=2","-DNFAULT=4","-DVP_ALLOC_HOOK=sim_fail"],extra=["alloc.c"],renames=["malloc","free"],hrenames=[],unwind=40,fs=64, incs=["sim/mp"], bounds="2 operations, any one of the first 4 allocations failing"),
H("queue5","immed.c",["libcperciva/events/events_immediate.c"],defs=["-DNSTEP=5","-DNFAULT=0"],unwind=40, fs=64,incs=["sim/mp"], tiers=("thorough",), timeout=850, required=False, bounds="5 operations, priorities 0, 3 and 31"),
]
