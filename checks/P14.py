from common import *
PROP = dict(
 id="P14", title="Asynchronous reads, writes and accepts report exactly what the socket did",
 statement="For every sequence of socket results, an asynchronous read or write continues exactly where the last partial transfer ended, stays within its buffer, waits through transient errors, and completes with the exact byte count once the requested minimum has been transferred (or with end of file, or with failure); an accept delivers exactly the socket it accepted. The callback runs exactly once per operation and never before the socket was ready or after cancellation, its status is passed on, and every allocation and registration is released. Writing to a closed connection never raises SIGPIPE.",
 quantifier=dict(over=["histories", "inputs", "fault_sequences"], text="all sequences of partial transfers, errors, readiness, cancellation and registration failures"),
 why_tests_cant="Short transfers with interruptions at arbitrary positions, exactly at the minimum length, and failing re-registrations hardly occur on a loopback test.",
 anchors=dict(files=["libcperciva/network/network_read.c", "libcperciva/network/network_write.c", "libcperciva/network/network_accept.c"],
  mechanism=[dict(name="read", where="network_read.c:callback_buf"), dict(name="write", where="network_write.c:callback_buf"), dict(name="accept", where="network_accept.c:callback_accept")],
  observe_at=["recv/send/accept arguments", "callback and its value", "registrations", "allocations"], hook_needed=None))
LEVEL_NOTE = "All sequences of up to 5 socket results, all buffer lengths and minima up to 255 bytes."
ASSUMPTIONS = ["events_network honours P11", "sockets honour POSIX", "the cookie pools (mpool.h) are replaced with malloc and free"]
OUTSIDE = "more than five partial transfers, buffers over 255 bytes (the lengths are used only in comparisons and sums)"
def h(k,n): return H(n,"netio.c",["libcperciva/network/network_%s.c"%n],defs=["-DKIND=%d"%k],extra=["alloc.c"],renames=["malloc","free","recv","send","accept"],hrenames=[],unwind=7,incs=["sim/mp"], bounds="5 socket results, lengths up to 255, one registration failure")
HARNESSES = [h(1,"read"),h(2,"write"),h(3,"accept")]
