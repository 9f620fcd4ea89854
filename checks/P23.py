from common import *
PROP = dict(
 id="P23", title="Connecting tries the addresses in order and ends in exactly one callback",
 statement="For every list of addresses and every outcome and order of events, connecting tries each address in order once, from the requested source address, without blocking and for no longer than the requested time, and ends in exactly one callback (with a connected socket, or with none once every address has failed or after a fatal error) unless it is cancelled. No other socket, event or memory is left at any end. A listening socket is bound to exactly the given address, non-blocking, or nothing is left open.",
 quantifier=dict(over=["fault_sequences", "schedules"], text="all outcomes of all calls, all orders of events, cancellation at any step"),
 why_tests_cant="Which address fails how (at once, later, by timeout, fatally) multiplies quickly; the tests connect to working or refused local addresses.",
 anchors=dict(files=["libcperciva/network/network_connect.c", "libcperciva/util/sock.c"],
  state=[dict(name="struct connect_cookie", meaning="the attempt", where="network_connect.c")],
  mechanism=[dict(name="next address", where="network_connect.c:tryconnect, dofailed"), dict(name="sockets", where="sock.c:sock_connect_bind_nb, sock_listener")],
  observe_at=["socket calls", "event registrations", "the callback"], hook_needed=None))
LEVEL_NOTE = "Lists of one to three addresses; the real network_connect.c with the real sock_connect_bind_nb."
ASSUMPTIONS = ["the event loop runs what is registered (P09, P11)"]
OUTSIDE = "longer lists; sock_connect (not used by spiped or spipe)"
R = ["malloc", "free", "socket", "setsockopt", "bind", "fcntl", "connect", "close", "getsockopt"]
HARNESSES = [H("connect%d" % n, "netconnect.c", ["libcperciva/network/network_connect.c", "libcperciva/util/sock.c"], extra=["alloc.c"],
  defs=["-DVP_ALLOC_HOOK=sim_fail", "-DNADDR=%d" % n], renames=R, hrenames=[], unwind=7, incs=["libcperciva/util"],
  bounds="%d addresses, all outcomes and orders" % n) for n in (1, 2, 3)]
HARNESSES.append(H("listener", "listener.c", ["libcperciva/util/sock.c"], renames=["socket", "setsockopt", "bind", "listen", "fcntl", "close"], hrenames=[], unwind=4,
  incs=["libcperciva/util"], bounds="all outcomes"))
