from common import *
PROP = dict(
 id="P11", title="Socket events reach exactly the registered callbacks, and only when ready",
 statement="For every sequence of registrations, cancellations, polls and event deliveries, the event loop polls each descriptor exactly for the operations registered on it, returns every event which the last poll reported ready (errors and hang-ups count as ready for all registered operations) exactly once, and never returns an event which was cancelled, already delivered or not ready. Registering twice and cancelling a missing event fail without side effects, the wait is never shorter than the requested time nor a millisecond longer, and an interrupted poll is repeated unless an interrupt was requested.",
 quantifier=dict(over=["histories", "inputs", "fault_sequences"], text="all sequences of registrations, cancellations and polls on several descriptors, all poll results and timeouts, allocation failures"),
 why_tests_cant="Stale readiness or a mixed-up poll array entry only shows when descriptors are removed in particular orders between one poll and the delivery of its results.",
 anchors=dict(files=["libcperciva/events/events_network.c", "libcperciva/datastruct/elasticarray.c"],
  state=[dict(name="fds", meaning="array given to poll", where="libcperciva/events/events_network.c"), dict(name="S", meaning="registered events by descriptor", where="libcperciva/events/events_network.c")],
  mechanism=[dict(name="register", where="events_network.c:events_network_register"), dict(name="cancel", where="events_network.c:events_network_cancel"), dict(name="poll", where="events_network.c:events_network_select"), dict(name="fetch", where="events_network.c:events_network_get")],
  observe_at=["poll arguments", "returned events", "return codes"], hook_needed=None))
LEVEL_NOTE = "Operation sequences of fixed shape with all operands and all poll results symbolic, 3 descriptors; all timeouts; array growth with the real elasticarray and one allocation failure."
ASSUMPTIONS = ["poll() honours POSIX", "event records are allocated by events.c (P13)"]
OUTSIDE = "other shapes of operation sequences, more than three descriptors at once with symbolic operands"
NET=["libcperciva/events/events_network.c"]
EA=["libcperciva/datastruct/elasticarray.c"]
def sh(x, **kw):
    return H("net%s" % x, "netev.c", NET, defs=['-DSHAPE="%s"'%x], renames=["poll","atexit","realloc"], hrenames=[], unwind=16, fs=64, checks=False,
      bounds="3 descriptors x 2 operations all registered, then the sequence %s (0 register, 1 cancel, 2 poll, 3 fetch) with arbitrary operands and poll results" % x, **kw)
HARNESSES = [
 H("tmo", "netev.c", NET+EA, defs=["-DTIMEOUT"],renames=["poll","atexit"], hrenames=[], unwind=8, bounds="all timeouts; poll interrupted once or failing"),
 H("grow", "netev.c", NET+EA, defs=["-DGROW=6","-DNFD=20","-DVP_ALLOC_HOOK=sim_fail"],extra=["alloc.c"],renames=["poll","atexit","malloc","realloc","free"], hrenames=[], unwind=42,fs=1000, bounds="20 descriptors in a fixed growing order, any one of the first 6 allocations failing"),
 sh("1210213", timeout=800), sh("23133"), sh("23013"), sh("21213"),
 sh("1230323", tiers=("thorough",), timeout=800), sh("111231023", tiers=("thorough",), timeout=850)]
