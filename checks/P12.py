from common import *
PROP = dict(
 id="P12", title="Timers fire once, in deadline order, never early, and reset or cancel exactly",
 statement="For every sequence of timer registrations, cancellations, resets and fetches and every clock history, a timer fires once its full duration has elapsed since it was registered or last reset, never earlier, at most once and never after being cancelled; among expired timers the earliest deadline fires first. The wait computed for the event loop is exactly the time to the earliest deadline (zero if it has passed, none without timers), and a clock or memory failure is reported without losing, duplicating or leaking any timer.",
 quantifier=dict(over=["histories", "inputs", "fault_sequences"], text="all sequences of timer operations with arbitrary times, all clock values, one resource failure anywhere"),
 why_tests_cant="Heap order errors and microsecond carries need particular combinations of deadlines, removals and resets.",
 anchors=dict(files=["libcperciva/events/events_timer.c", "libcperciva/datastruct/timerqueue.c", "libcperciva/datastruct/ptrheap.c"],
  state=[dict(name="Q", meaning="queue of pending timers", where="libcperciva/events/events_timer.c"), dict(name="heap", meaning="heap array and record positions", where="libcperciva/datastruct/ptrheap.c")],
  mechanism=[dict(name="register", where="events_timer.c:events_timer_register"), dict(name="reset", where="events_timer.c:events_timer_reset"), dict(name="wait", where="events_timer.c:events_timer_min"), dict(name="fetch", where="events_timer.c:events_timer_get"), dict(name="heap order", where="ptrheap.c:heapify, heapifyup, ptrheap_delete")],
  observe_at=["returned events", "computed waits", "return codes", "allocations"], hook_needed=None))
LEVEL_NOTE = "One timer with all times; up to six timers in operation sequences of fixed shape with symbolic operands; each of the first 28 fallible calls failing."
ASSUMPTIONS = ["the monotonic clock does not go backwards in the multi-timer sequences", "event records are allocated by events.c (P13)"]
OUTSIDE = "more than six simultaneous timers, other operation sequences, exact durations beyond 2^20 s"
SR=["libcperciva/events/events_timer.c","libcperciva/datastruct/timerqueue.c","libcperciva/datastruct/ptrheap.c"]
EA=["libcperciva/datastruct/elasticarray.c"]
def sh(x, n, **kw):
    return H(x.lower(), "timer.c", SR, defs=['-DSHAPE="%s"' % x, "-DNT=%d" % n], renames=["atexit"], hrenames=[], unwind=7, unwindset=["main.0:24"], fs=64, checks=False,
     bounds="the sequence %s (Add, Cancel, Reset, Time passes, Min wait, Get) with arbitrary timers, durations 0..7 s and time steps 0..3 s" % x, **kw)
HARNESSES = [
H("arith","timer.c",SR+EA,defs=["-DARITH=1"],renames=["atexit"],hrenames=[],unwind=4, bounds="one timer, durations and clock values up to 2^16 s with all microseconds"),
H("double","timer.c",SR+EA,defs=["-DDOUBLE=1"],renames=["atexit"],hrenames=[],unwind=4, bounds="all durations given as a double (exact whole seconds below 2^20 s, at least 2^20 s beyond, including infinity)"),
H("double2","timer.c",SR+EA,defs=["-DDOUBLE=2"],renames=["atexit"],hrenames=[],unwind=4, bounds="multiples of 1/4 s"),
H("faults","timer.c",SR+EA,defs=["-DFAULTS=28","-DVP_ALLOC_HOOK=sim_fail"],renames=["atexit","malloc","realloc","free"],extra=["alloc.c"],hrenames=[],unwind=31, bounds="three timers, each of the first 28 fallible calls failing"),
sh("AAATGMG",5), sh("AAACTGG",5), sh("AAATRMG",5), sh("AAAACTG",5), sh("AAAAATGG", 5), sh("AAAARTG", 5),
sh("AAAAAACTGG", 6, tiers=("thorough",), timeout=850, required=False), sh("AAAAARTGMG", 5, tiers=("thorough",), timeout=850, required=False), sh("AAACATRTGG", 5, tiers=("thorough",), timeout=850, required=False),
]
