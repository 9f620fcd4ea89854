from common import *
PROP = dict(
 id="P18", title="AES-CTR gives every byte of a stream its own keystream byte",
 statement="For every nonce, key and way of splitting a stream into calls, byte i is combined with byte i mod 16 of the encryption of the block made of the big-endian nonce and the big-endian block number i/16, also where the low counter bytes wrap and where the software and AES-NI paths take turns. Output may overwrite the input, nothing beyond it is written, and the state is cleared when the stream ends.",
 quantifier=dict(over=["inputs", "histories"], text="all nonces and data; call lengths and stream positions, either implementation"),
 why_tests_cant="Both ends use the same code, so a keystream repeated or shifted at a rare position (after 255 blocks, or when a short call precedes a long one) still decrypts; only the confidentiality is lost.",
 anchors=dict(files=["libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_aesctr_shared.c", "libcperciva/crypto/crypto_aesctr_aesni.c"],
  state=[dict(name="struct crypto_aesctr", meaning="key, position, current keystream block, last counter block", where="crypto_aesctr_shared.c")],
  mechanism=[dict(name="counter", where="crypto_aesctr_shared.c:crypto_aesctr_stream_cipherblock_generate"), dict(name="software stream", where="crypto_aesctr.c:crypto_aesctr_stream"), dict(name="AES-NI stream", where="crypto_aesctr_aesni.c:crypto_aesctr_aesni_stream_wholeblocks")],
  observe_at=["blocks given to the block cipher", "output bytes", "wiping"], hook_needed=None))
LEVEL_NOTE = 'One call of 0..19 bytes and a further one from every offset in a block, and calls around the positions where counter bytes wrap (blocks 2, 255, 2^16, 2^32, 2^56), started from the state the stream has there; whole streams from their start past block 255. Nonce, data and keystream are symbolic; positions and lengths are enumerated by the symbolic execution.'
ASSUMPTIONS = ['the block cipher is an arbitrary keystream per block number', 'P17 for the block cipher itself']
OUTSIDE = 'single calls longer than 64 bytes, other positions'
SRC = ["libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_aesctr_aesni.c"]
def h(name, defs, **kw):
    kw.setdefault("unwind", 100)
    kw.setdefault("maxunwind", 5000)
    return H(name, "aesctr.c", SRC, defs=["-DCPUSUPPORT_X86_AESNI", "-DVP_ALLOC_HOOK=sim_fail"] + defs, incs=["sim/x86"], extra=["alloc.c"],
      renames=["malloc", "free"], hrenames=[], native_flags=["-maes"], solver="cadical", checks=False, flags=["--object-bits", "14"], **kw)
B = ",".join("%dUL" % (2**k - 2) for k in (1, 16, 32, 56))
HARNESSES = [h("near_%s%d" % (n, r), ["-DINDUCT", "-DHW=%d" % hw, "-DR0=%d" % r, "-DR1=%d" % (r + 4), "-DNMAX=19", "-DNSTEP=1", "-DN2S=18", "-DBASES=255"], bounds="around block 255, offset %d..%d, a call of 0..19 bytes, then one of 18" % (r, r + 3))
  for n, hw in (("sw", 0), ("ni", 1)) for r in (0, 4, 8, 12)] + \
 [h("far_%s%d" % (n, r), ["-DINDUCT", "-DHW=%d" % hw, "-DR0=%d" % r, "-DR1=%d" % (r + 1), "-DNMAX=48", "-DNSTEP=16", "-DN2S=7,33", "-DBASES=" + B], bounds="around blocks 0, 2^16, 2^32, 2^56, offset %d, a call of 0, 16, 32 or 48 bytes, then one of 7 or 33" % r)
  for n, hw in (("sw", 0), ("ni", 1)) for r in (0, 9)] + \
 [h("stream_%s%d" % (n, s), ["-DHW=%d" % hw, "-DSKIP=%d" % s, "-DNS=0,5,16,33"], bounds="from the start of a stream, %d bytes, then two calls of 0, 5, 16 or 33 bytes" % s) for n, hw in (("sw", 0), ("ni", 1)) for s in (0, 4073)]
