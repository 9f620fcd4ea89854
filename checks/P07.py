from common import *
PROP = dict(
 id="P07", title="The handshake yields keys only for an authenticated peer, and always terminates",
 statement="Under every order of network completions, each end sends its 32-byte nonce first and its 288-byte Diffie-Hellman message second, reads exactly these amounts, and - at the server - reveals its Diffie-Hellman message only after the client's was found valid; session keys are delivered only after the peer's message, received on this connection, was validated under the peer's MAC key with the forward-secrecy requirement applied. The owner is called back exactly once, with keys or with a failure, after any broken connection or invalid message, and never after cancellation; nothing is leaked or left pending, and two honest ends never wait for each other.",
 quantifier=dict(over=["schedules", "fault_sequences", "inputs"], text="all orders of completion of the reads and writes, short or failed transfers, cancellation at any point, any single allocation, entropy or request failure, all message contents and settings"),
 why_tests_cant="The interleaving of the nonce write and read, a peer closing in mid-message and cancellation by the timeout depend on network timing which tests do not control.",
 anchors=dict(files=["lib/proto/proto_handshake.c"],
  state=[dict(name="pending operations", meaning="read_cookie / write_cookie tell which step comes next", where="lib/proto/proto_handshake.c struct handshake_cookie")],
  mechanism=[dict(name="nonce exchange", where="lib/proto/proto_handshake.c:gotnonces"), dict(name="validation before reply", where="lib/proto/proto_handshake.c:callback_dh_read"), dict(name="failure", where="lib/proto/proto_handshake.c:handshakefail"), dict(name="cancellation", where="lib/proto/proto_handshake.c:proto_handshake_cancel")],
  observe_at=["network operations requested", "calls into the cryptographic layer", "the completion callback"], hook_needed=None))
LEVEL_NOTE = "All completion orders of one end (with faults, truncation and cancellation at each step) and of two honest ends together; the state machine is acyclic, so the bounds cover whole handshakes."
ASSUMPTIONS = ["the network layer honours its contract (P11): an operation completes once or is cancelled", "the cryptographic layer is replaced by recording stand-ins with arbitrary results (P05, P06)", "Diffie-Hellman message scaled from 288 to 6 bytes", "at most one resource failure per handshake"]
OUTSIDE = "message sizes other than by their constants"
def h(name, k, x, **kw):
    return H(name, "handshake.c", ["lib/proto/proto_handshake.c"], defs=["-include", "scale_packet.h", "-DSCALE_YH=6", "-DHS=%d" % k, "-DVP_ALLOC_HOOK=sim_fail"] + x,
      incs=["sim"], extra=["sim/simnet.c", "alloc.c"], renames=["malloc", "calloc", "realloc", "free"], hrenames=[], unwind=50, fs=64, **kw)
HARNESSES = [
 h("client", 1, ["-DDECR=0"], bounds="one handshake at the client, all schedules, one resource fault anywhere, cancellation anywhere"),
 h("server", 1, ["-DDECR=1"], bounds="one handshake at the server, likewise"),
 h("two", 2, ["-DDECR=0"], bounds="two ends over reliable channels, all interleavings, either may find the other invalid", weight=5),
]
