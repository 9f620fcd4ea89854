from common import *
PROP = dict(
 id="P16", title="SHA-256, HMAC and PBKDF2 process every byte of any input, in any chunks",
 statement="For every message length and every way of splitting the message into updates, SHA-256 feeds its block function exactly the padded message blocks of FIPS 180-4, each continuing from the previous state, and outputs the final state; HMAC-SHA256 and PBKDF2 combine these hashes exactly as RFC 2104 and RFC 8018 say, for keys shorter than, equal to and longer than a block and for any output length. Contexts are wiped when finished.",
 quantifier=dict(over=["inputs", "histories"], text="all message contents, lengths and splits, all key lengths around the block size"),
 why_tests_cant="Known-answer tests use few lengths; an error at one combination of buffered bytes and update length, or in the bit count of long messages, passes them.",
 anchors=dict(files=["libcperciva/alg/sha256.c"],
  state=[dict(name="SHA256_CTX", meaning="state, bit count and buffered bytes", where="libcperciva/alg/sha256.h")],
  mechanism=[dict(name="update", where="sha256.c:SHA256_Update_internal"), dict(name="padding", where="sha256.c:SHA256_Pad"), dict(name="HMAC", where="sha256.c:HMAC_SHA256_Init_internal, HMAC_SHA256_Final_internal"), dict(name="PBKDF2", where="sha256.c:PBKDF2_SHA256")],
  observe_at=["arguments of the block function", "digests", "wiping"], hook_needed=None))
LEVEL_NOTE = "One update and one finish from every buffer fill with symbolic contents and states (an inductive step, so streams of any length), lengths up to 130 bytes; the block function is uninterpreted; HMAC and PBKDF2 at selected lengths with symbolic contents."
ASSUMPTIONS = ["the block function is one deterministic function of state and block in all variants (P17)"]
OUTSIDE = "updates longer than 130 bytes at once, bit counts other than three representative magnitudes"
SHA=["libcperciva/alg/sha256.c"]
def h(name, mode, defs=(), **kw):
    kw.setdefault("unwind", 290)
    return H(name, "sha.c", SHA, defs=["-DMODE=%d"%mode, "-DCPUSUPPORT_X86_SSE2", "-include", "sha_hw.h"]+list(defs), renames=["memcpy","memset"], hrenames=[], checks=False, **kw)
def mac(k, l, sp, **kw): return h("hmac%d_%d" % (k, l), 4, ["-DKLENS=%d" % k, "-DMAXIN=%d" % max(k, l, 1), "-DLENS=%d" % l, "-DSPLIT=%d" % sp], bounds="%d-byte key, %d-byte message, at once or in two parts" % (k, l), **kw)
def upd(name, rs, b=False, **kw): return h(name, 1, ["-DMAXIN=130", "-DRSET=%du" % sum(1 << r for r in rs)] + (["-DBOUNDARY"] if b else []), maxunwind=1200,
   bounds="one update of %s bytes with %s bytes buffered" % ("0..130 (within one byte of a block boundary)" if b else "0..130", "%d..%d" % (min(rs), max(rs)) if len(rs) > 1 else rs[0]), **kw)
HARNESSES = [upd("update0", [0]), upd("update56", [56]), upd("update63", [63])] + \
 [upd("bound%d" % i, range(i, i + 16), True) for i in (0, 16, 32, 48)] + \
 [h("final",2, bounds="finish with 0..63 buffered bytes and lengths up to 2^61 bytes"), h("buf",6,["-DMAXIN=130","-DLENS=0,1,55,56,63,64,65,119,120,130"], bounds="whole messages of 0,1,55,56,63,64,65,119,120,130 bytes"),
 mac(0,7,3),mac(32,1,0),mac(64,64,9),mac(65,8,4),mac(128,3,3),
 h("pbkdf2",5,["-DKLEN=4","-DLEN=60","-DMAXIN=64","-DDKLEN=40","-DITER=2"], bounds="two iterations, 40 output bytes, 4-byte key, 60-byte salt"),
 h("pbkdf2_1",5,["-DKLEN=70","-DLEN=3","-DMAXIN=72","-DDKLEN=64","-DITER=1"], bounds="one iteration, 64 output bytes, 70-byte key")] + \
 [upd("all%d" % i, range(i, i + 4), tiers=("thorough",), timeout=850, required=False) for i in range(0, 64, 4)]
