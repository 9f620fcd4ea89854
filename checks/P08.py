from common import *
PROP = dict(
 id="P08", title="Diffie-Hellman computes base^(2^258+x) mod p with fresh blinding",
 statement="A generated public value is 2^(2^258 + x) modulo the RFC 3526 group #14 prime for a private x of 256 freshly drawn random bits, and the shared value is y^(2^258 + x) modulo the same prime, both as 256-byte big-endian numbers with leading zeroes. The private exponent is split by a freshly drawn random blinding value before any exponentiation, numbers derived from it are cleared when freed, and failure of any step of the library yields an error, never a result, and leaks nothing.",
 quantifier=dict(over=["inputs", "fault_sequences"], text="all private values, blinding values and public values; every library call failing"),
 why_tests_cant="A short result (leading zero byte) occurs once in 256 runs, an unblinded exponent or an uncleared secret is invisible from outside, and library failures do not happen in tests.",
 anchors=dict(files=["libcperciva/crypto/crypto_dh.c", "libcperciva/crypto/crypto_dh_group14.c"],
  mechanism=[dict(name="blinded exponentiation", where="libcperciva/crypto/crypto_dh.c:blinded_modexp"), dict(name="key generation", where="libcperciva/crypto/crypto_dh.c:crypto_dh_generate"), dict(name="shared value", where="libcperciva/crypto/crypto_dh.c:crypto_dh_compute")],
  observe_at=["arguments of the bignum library", "resulting bytes and return value"], hook_needed=None))
LEVEL_NOTE = "Exhaustive over private, blinding and public values and over failures of each library call; modular exponentiation is an abstract group, result sizes 256, 255 and 1."
ASSUMPTIONS = ["the bignum library computes what it documents (it is replaced by integers of 320 bits and an abstract cyclic group)"]
OUTSIDE = "OpenSSL's arithmetic; result sizes other than 256, 255 and 1 bytes"
HARNESSES = [H("%s_%d" % (n, l), "dh.c", ["libcperciva/crypto/crypto_dh.c", "libcperciva/crypto/crypto_dh_group14.c"],
  defs=["-include", "group14_size.h", "-DDHMODE=%d" % k, "-DRLEN=%d" % l], unwind=300, fs=400,
  bounds="one call, result of %d significant bytes, every library call may fail" % l) for n, k, l in
  (("generate_pub", 1, 256), ("generate", 2, 255), ("compute", 3, 256), ("compute", 3, 1))]
