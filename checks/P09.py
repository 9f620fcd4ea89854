from common import *
PROP = dict(
 id="P09", title="A connection ends exactly once, for the right reason, releasing everything",
 statement="Under every order of connect, handshake, timer, data and cancellation events, a connection shuttles data only once the target is connected and the handshake has delivered keys, each direction with its own key and role; connecting and handshaking each run under the configured timeout until they finish, and end-of-stream in one direction leaves the other running. The connection is dropped exactly once - on connect failure, handshake failure, timeout, error, both directions ended, or the owner's request, and with that reason - after which both sockets are closed once, keys and addresses are freed once, no timer or operation remains, and the owner's status is passed on.",
 quantifier=dict(over=["schedules", "fault_sequences", "configurations"], text="all orders of events of one connection's life, all settings, a resource failure at any point"),
 why_tests_cant="Tests see the orders a fast loopback network happens to produce; a timeout between two particular events, or a connect finishing after the handshake, needs luck.",
 anchors=dict(files=["lib/proto/proto_conn.c"],
  state=[dict(name="connection", meaning="sockets, pending operations, keys, pipes", where="lib/proto/proto_conn.c struct conn_state")],
  mechanism=[dict(name="creation", where="lib/proto/proto_conn.c:proto_conn_create"), dict(name="launch", where="lib/proto/proto_conn.c:launchpipes"), dict(name="drop", where="lib/proto/proto_conn.c:proto_conn_drop"), dict(name="end of a direction", where="lib/proto/proto_conn.c:callback_pipestatus")],
  observe_at=["calls to connect, handshake, pipe, timer and socket functions", "the owner's callback"], hook_needed=None))
LEVEL_NOTE = "All event orders from creation to drop (at most 6 events), with one resource failure anywhere, in both roles."
ASSUMPTIONS = ["connect, handshake, pipes and timers honour their contracts (P23, P07, P04, P12): each pending operation calls back once or is cancelled", "at most one resource failure"]
OUTSIDE = "the daemon's behaviour after a resource failure stops the event loop"
def h(name, d, **kw):
    return H(name, "conn.c", ["lib/proto/proto_conn.c"], defs=["-DDECR=%d" % d, "-DVP_ALLOC_HOOK=sim_fail"],
      extra=["alloc.c"], renames=["malloc", "calloc", "realloc", "free", "close", "setsockopt"], hrenames=[], unwind=12, fs=64, **kw)
HARNESSES = [h("client", 0, bounds="sending end, all event orders"), h("server", 1, bounds="receiving end, all event orders")]
