from common import *
import importlib.util, os
_s = importlib.util.spec_from_file_location("P05d", os.path.join(os.path.dirname(__file__), "P05.py"))
P05 = importlib.util.module_from_spec(_s); _s.loader.exec_module(P05)
PROP = dict(
 id="P06", title="A handshake message is accepted iff authentic, in range and not a downgrade",
 statement="A received Diffie-Hellman message y || h is accepted if and only if h is the HMAC-SHA256 of the 256 bytes y under the sending end's handshake MAC key, y as a big-endian integer is smaller than the group #14 modulus, and - when forward secrecy is required - y is not 1. No other value is accepted and no acceptable value is refused.",
 quantifier=dict(over=["inputs", "configurations"], text="all 288-byte messages, all MAC keys, forward secrecy required or not"),
 why_tests_cant="A wrong comparison matters only for crafted values (the modulus, its neighbours, 1, a MAC differing in one byte) which an honest peer never sends.",
 anchors=dict(files=["lib/proto/proto_crypt.c", "libcperciva/crypto/crypto_dh.c", "libcperciva/crypto/crypto_verify_bytes.c"],
  mechanism=[dict(name="validation", where="lib/proto/proto_crypt.c:proto_crypt_dh_validate"), dict(name="range check", where="libcperciva/crypto/crypto_dh.c:crypto_dh_sanitycheck"), dict(name="constant-time comparison", where="libcperciva/crypto/crypto_verify_bytes.c:crypto_verify_bytes")],
  observe_at=["return value of validation", "MAC input"], hook_needed=None))
LEVEL_NOTE = "Exhaustive: one call over all 288-byte messages and 32-byte keys."
ASSUMPTIONS = [IDEAL]
OUTSIDE = "the order of messages (P07)"
SRCS = CRYPT + ["libcperciva/crypto/crypto_dh.c", "libcperciva/crypto/crypto_dh_group14.c"]
HARNESSES = [P05.h("validate", 3, srcs=SRCS, bounds="all messages, keys and settings")]
