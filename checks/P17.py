from common import *
PROP = dict(
 id="P17", title="Every SHA-256 and AES implementation computes the standard's function",
 statement="For every state and block, each variant of the SHA-256 block function (portable, SSE2, SHA instructions) gives the state of FIPS 180-4, and the AES instructions' key schedule and rounds give the block of FIPS 197 for 128- and 256-bit keys. An accelerated variant is used only on a processor with the instructions and only if it passed its self-test, and expanded keys are cleared and freed.",
 quantifier=dict(over=["inputs", "configurations"], text="all states, blocks and keys; all processor features"),
 why_tests_cant="The self-tests and known answers use a handful of blocks, and a machine runs only one variant; an error in a variant or for particular words goes unnoticed, and two ends with different processors could not talk.",
 anchors=dict(files=["libcperciva/alg/sha256.c", "libcperciva/alg/sha256_sse2.c", "libcperciva/alg/sha256_shani.c", "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aes_aesni.c"],
  mechanism=[dict(name="block functions", where="sha256.c:SHA256_Transform, sha256_sse2.c:SHA256_Transform_sse2, sha256_shani.c:SHA256_Transform_shani"), dict(name="AES", where="crypto_aes_aesni.c:crypto_aes_key_expand_aesni, crypto_aes_encrypt_block_aesni_m128i"), dict(name="choice", where="sha256.c:hwaccel_init, crypto_aes.c:hwaccel_init")],
  observe_at=["state after a block", "ciphertext block", "calls of the variants"], hook_needed=None))
LEVEL_NOTE = 'SHA-256: the whole 64-round function for every state and block, by word-level sweeping with Z3 of the formula CBMC makes of the real code; AES: key schedule and rounds with the round and S-box functions uninterpreted.'
ASSUMPTIONS = ['the x86 instructions do what Intel documents (modelled in harness/sim/x86)', "OpenSSL's AES_encrypt is AES", 'one AES round and the S-box are uninterpreted functions']
OUTSIDE = "ARM variants (not built here); alignment and memory safety of the intrinsics' loads"
AES=["libcperciva/crypto/crypto_aes_aesni.c"]
def a(name, mode, srcs, defs=(), ren=(), **kw):
    return H(name, "aes.c", srcs, defs=["-DMODE=%d" % mode, "-DCPUSUPPORT_X86_AESNI", "-DVP_ALLOC_HOOK=sim_fail", "-include", "aes_sym.h"] + list(defs), incs=["sim/x86"], extra=["alloc.c"],
      renames=["malloc", "free"]+list(ren), hrenames=[], native_flags=["-maes"], unwind=70, solver="cadical", **kw)
TECHNIQUE = TECH + "; the SHA-256 kernels by word-level sweeping with Z3 over CBMC's SMT encoding of the same sources"
HARNESSES = [a("aesni%d" % (8 * k), 1, AES, ["-DKEYLEN=%d" % k], checks=False, bounds="any %d-byte key, any block" % k) for k in (16, 32)] + \
 [a("align", 3, [], bounds="arrays at any of 32 addresses")] + \
 [a("aes%d" % (8 * k), 2, ["libcperciva/crypto/crypto_aes.c"], ["-DKEYLEN=%d" % k], ren=["AES_set_encrypt_key", "AES_encrypt", "abort"], bounds="any %d-byte key and block, failing self-test, failing expansion" % k) for k in (16, 32)]

ALG = "libcperciva/alg/"
def s(name, v, srcs, defs, **kw):
    return H(name, "shablock.c", srcs, defs=["-DVARIANT=%d" % v] + defs, incs=["sim/x86"], renames=["memcpy"], hrenames=[], unwind=70, solver="sweep", checks=False, **kw)
HARNESSES += [s("sha_software", 0, [ALG + "sha256.c"], [], bounds="any state, any block"),
 s("sha_sse2", 1, [ALG + "sha256_sse2.c"], ["-DCPUSUPPORT_X86_SSE2"], bounds="any state, any block"),
 s("sha_shani", 2, [ALG + "sha256_shani.c"], ["-DCPUSUPPORT_X86_SHANI", "-DCPUSUPPORT_X86_SSSE3", "-DVP_SIM_X86"], bounds="any state, any block")]
HARNESSES += [H("sha_select", "shasel.c", [ALG + "sha256.c"], defs=["-DCPUSUPPORT_X86_SSE2", "-DCPUSUPPORT_X86_SHANI", "-DCPUSUPPORT_X86_SSSE3"], unwind=70,
 bounds="any set of processor features, any variant giving a wrong answer")]
