from common import *
PROP = dict(
 id="P10", title="The connection limit is never exceeded and accepting always resumes",
 statement="Under every order of new connections, connection ends, re-resolutions and shutdown requests, the daemon never has more than the configured number of connections, keeps accepting exactly while it is below the limit and no shutdown has been requested, and hands each accepted socket to one connection with the daemon's settings and its own copy of the latest successfully resolved addresses. After a shutdown request the completion flag is set exactly when the last connection has ended; an immediate shutdown drops every connection and releases every resource once.",
 quantifier=dict(over=["schedules", "histories", "fault_sequences"], text="all orders of accepts, connection ends, resolver results, shutdown requests and resource failures"),
 why_tests_cant="Losing the pending accept after some sequence of openings and closings at the limit stops the daemon for good; only particular histories show it.",
 anchors=dict(files=["spiped/dispatch.c"],
  state=[dict(name="connections", meaning="count and list of live connections", where="spiped/dispatch.c struct accept_state")],
  mechanism=[dict(name="accept if allowed", where="spiped/dispatch.c:doaccept"), dict(name="connection end", where="spiped/dispatch.c:callback_conndied"), dict(name="new connection", where="spiped/dispatch.c:callback_gotconn"), dict(name="shutdown", where="spiped/dispatch.c:dispatch_shutdown"), dict(name="graceful shutdown", where="spiped/dispatch.c:dispatch_request_shutdown")],
  observe_at=["accept requests", "connections created and dropped", "completion flag", "address lists in use"], hook_needed=None))
LEVEL_NOTE = "All event sequences up to the bound, limits 1..3, one resource failure at any of the first calls."
ASSUMPTIONS = ["accept, connections, timers and the resolver thread honour their contracts (P11, P09, P12, P28)", "at most one resource failure"]
OUTSIDE = "longer event sequences, larger limits"
def h(name, dns, nev, maxc, nfault, **kw):
    return H(name, "dispatch.c", ["spiped/dispatch.c"], defs=["-DDNS=%d" % dns, "-DNEV=%d" % nev, "-DMAXC=%d" % maxc, "-DNFAULT=%d" % nfault, "-DVP_ALLOC_HOOK=sim_fail"],
      extra=["alloc.c"], renames=["malloc", "calloc", "realloc", "free", "close"], hrenames=[], unwind=30, fs=64,
      bounds="%d events, limits 1..%d, %s re-resolution, fault at any of the first %d fallible calls" % (nev, maxc, "with" if dns else "without", nfault - 1), **kw)
HARNESSES = [h("conns", 0, 6, 3, 1), h("faults", 0, 3, 2, 10), h("dns", 1, 5, 2, 1), h("dnsfaults", 1, 3, 1, 9),
 h("conns8", 0, 8, 3, 1, tiers=("thorough",), timeout=800, required=False), h("dns6", 1, 6, 2, 1, tiers=("thorough",), timeout=800, required=False), h("faults5", 0, 5, 3, 13, tiers=("thorough",), timeout=800)]
