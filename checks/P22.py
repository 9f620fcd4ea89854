from common import *
PROP = dict(
 id="P22", title="An address string means exactly the socket it names, or is refused",
 statement="Every address string is either refused or resolved as documented: a path to that UNIX socket (only if it fits), [address]:port to exactly that IPv4 or IPv6 address and decimal port 0..65535, anything else to the host before and the port after the last colon, with all the resolver's addresses in order. A bind address without a port gets one chosen by the system; copies and serializations of an address are equal to it, malformed serializations are refused, and nothing leaks when memory runs out.",
 quantifier=dict(over=["inputs", "fault_sequences"], text="all strings of up to 4 characters, bracketed ones of up to 6, all ports of up to 6 characters, path lengths around the limit, all serialized forms of up to 18 bytes; each allocation failing"),
 why_tests_cant="Strings are unbounded; off-by-one cuts at the brackets, the last colon or the path limit show only for particular shapes, and the tests use a handful of well-formed addresses.",
 anchors=dict(files=["libcperciva/util/sock.c", "libcperciva/util/sock_util.c", "libcperciva/util/parsenum.h"],
  mechanism=[dict(name="parsing", where="sock.c:sock_resolve"), dict(name="validation", where="sock_util.c:sock_addr_validate"), dict(name="default port", where="sock_util.c:sock_addr_ensure_port"), dict(name="copies", where="sock_util.c:sock_addr_dup, sock_addr_serialize")],
  observe_at=["sock_addr structures", "getaddrinfo and inet_pton calls", "allocations"], hook_needed=None))
LEVEL_NOTE = "Characters are symbolic; where the colons, brackets and slash stand is enumerated by the symbolic execution. strto*(), getaddrinfo() and inet_pton() are stand-ins (C99 semantics; any outcome)."
ASSUMPTIONS = ["getaddrinfo and inet_pton do what POSIX says"]
OUTSIDE = "longer strings; white space and signs before a port are neither required nor forbidden"
SRC = ["libcperciva/util/sock.c", "libcperciva/util/sock_util.c"]
def h(name, mode, defs=[], **kw):
    kw.setdefault("unwind", 130)
    return H(name, "sockaddr.c", SRC, defs=["-DVP_NO_STRDUP", "-DVP_ALLOC_HOOK=sim_fail", "-DMODE=%d" % mode] + defs, extra=["alloc.c"],
      renames=["malloc", "calloc", "realloc", "free", "getaddrinfo", "freeaddrinfo", "gai_strerror", "inet_pton", "inet_ntop", "strtoimax", "strtoumax", "strtod", "strlen", "strcmp", "strdup", "strcpy", "strchr", "strrchr"], hrenames=[], flags=["--object-bits","14"], **kw)
def text(name, defs, **kw):
    return h(name, 0, ["-DNAI=1"] + defs, unwind=30, solver="cadical", **kw)
HARNESSES = [text("text%d" % n, bounds="all strings of %d characters" % n, defs=["-DLEN=%d" % n], checks=(n < 3)) for n in (2, 3, 4)] + \
 [text("bracket%d" % n, bounds="all strings of %d characters which start with a bracket" % n, tiers=("quick", "thorough") if n == 5 else ("thorough",), defs=["-DLEN=%d" % n, "-DFIRST=0"], checks=False) for n in (5, 6)] + \
 [text("port", bounds="[x]: and 1 to 6 further characters", defs=["-DLEN=10", "-DPORT"], checks=False)] + \
 [h("longpath", 1, bounds="paths around the limit of sun_path", checks=False), h("copies", 2, ["-DNLIST=2", "-DBL=4"], bounds="addresses of up to 5 bytes, lists of 2, each allocation failing",checks=False, unwind=30), h("untrusted", 3, bounds="any 0..18 bytes")]+ \
 [h("one%d" % i, 4, bounds="addresses with and without port, up to 3 results, each allocation failing", defs=["-DI0=%d" % i, "-DI1=%d" % j], checks=False, unwind=30) for i, j in ((0, 1), (1, 4), (4, 7), (7, 9))]
