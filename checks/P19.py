from common import *
PROP = dict(
 id="P19", title="Random bytes come from a seeded HMAC_DRBG and never without entropy",
 statement="Every random byte handed out is the next output byte of an HMAC_DRBG (SP 800-90A) seeded with 48 bytes the operating system provided, with RDRAND output mixed in when the CPU has it; no byte is handed out while seeding has failed. Entropy is mixed in again after at most 256 requests (a failure there is reported and retried), at most 65536 bytes come from one state, and every seed byte was really read from the system's random device, however the reads come back.",
 quantifier=dict(over=["inputs", "histories", "fault_sequences"], text="all entropy and RDRAND values; request lengths 0..64 and histories of 258 requests; all short reads, ends of file and errors of the random device"),
 why_tests_cant="Predictable random bytes look like unpredictable ones: no test notices a seed that was never read, a state that is not renewed, or a reseed that does nothing.",
 anchors=dict(files=["libcperciva/crypto/crypto_entropy.c", "libcperciva/util/entropy.c"],
  state=[dict(name="drbg", meaning="Key, V, and requests since the last seeding", where="crypto_entropy.c"), dict(name="instantiated", meaning="seeding has worked", where="crypto_entropy.c")],
  mechanism=[dict(name="seeding", where="crypto_entropy.c:instantiate"), dict(name="reseeding", where="crypto_entropy.c:reseed"), dict(name="generation", where="crypto_entropy.c:generate"), dict(name="system entropy", where="entropy.c:entropy_read")],
  observe_at=["bytes returned", "HMAC calls", "entropy and RDRAND requests", "open, read, close"], hook_needed=None))
LEVEL_NOTE = "Bytes: all seeds, two requests of 0..64 bytes against SP 800-90A with HMAC an arbitrary function. Reseeding: 258 one-byte requests with every HMAC call tracked, the second seeding working or failing. One request of 65569 bytes. System reads: up to five reads with every outcome."
ASSUMPTIONS = ["HMAC-SHA256 as in P16"]
OUTSIDE = "RDRAND instruction itself; other request lengths"
SRC = ["libcperciva/crypto/crypto_entropy.c"]
def h(name, defs, **kw):
    kw.setdefault("unwind", 110)
    return H(name, "drbg.c", SRC, defs=["-DCPUSUPPORT_X86_RDRAND"] + defs, renames=["memcpy", "memset"], hrenames=[], checks=False, flags=["--object-bits", "14"], **kw)
HARNESSES = [h("bytes%d%d%d" % t, bounds="two requests, RDRAND present/failing, first seeding failing = %d%d%d" % t, defs=["-DHASRD=%d" % t[0], "-DRDFAIL=%d" % t[1], "-DENTFAIL=%d" % t[2], "-DLENS=33,1,0,64"], solver="cadical") for t in ((0,0,0),(1,0,0),(1,1,1))] + \
 [h("interval%d" % r, bounds="258 requests, RDRAND present and second seeding failing = %d" % r, tiers=("quick", "thorough") if r else ("thorough",), defs=["-DCOUNT", "-DBIG=1", "-DNREQ=258", "-DHASRD=%d" % r, "-DFAIL2=%d" % r], unwind=310, timeout=400) for r in (0, 1)] + [h("long", bounds="one request of 65569 bytes", defs=["-DCOUNT", "-DBIG=65569", "-DNREQ=1", "-DHASRD=0", "-DFAIL2=0"], unwind=2100, timeout=400)]
HARNESSES.append(H("system", "entropy.c", ["libcperciva/util/entropy.c"], defs=["-DVP_ALLOC_HOOK=sim_fail"], extra=["alloc.c"], renames=["malloc", "free", "open", "read", "close"], hrenames=[], unwind=60, maxunwind=120, bounds="0, 1, 8, 32 or 48 bytes; up to five reads, each giving 1 byte, half, everything, an error or end of file; open, close (also interrupted) and memory failures"))
