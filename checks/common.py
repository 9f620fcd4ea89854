"""Shared between the check descriptions."""
from vp import H

TECH = ("bounded model checking of the real C sources (goto-cc + CBMC 6.11, SAT), symbolic inputs/schedules/faults, "
        "unwinding assertions on; counterexamples replayed natively (gcc ASan+UBSan) before they are reported")

VERIFY = ["libcperciva/crypto/crypto_verify_bytes.c", "libcperciva/util/insecure_memzero.c"]
CRYPT = VERIFY + ["lib/proto/proto_crypt.c"]

IDEAL = ("ideal cryptography: HMAC-SHA256, PBKDF2 and AES-CTR keystreams are uninterpreted functions of their exact "
         "inputs (the primitives themselves are separate properties)")


def packet(name, mode, **kw):
    """One packet operation at the real packet size."""
    return H(name, "crypt_packet.c", VERIFY, defs=["-include", "scale_packet.h", "-DMODE=%d" % mode],
        incs=["ideal"], extra=["ideal/ideal.c"], unwind=1100, maxunwind=2200, timeout=600, fs=2048, checks=False,
        weight=10, **kw)


def packetmem(name, mode, **kw):
    """The same with memory-safety checks, payload scaled to 60 bytes."""
    return H(name, "crypt_packet.c", VERIFY, defs=["-include", "scale_packet.h", "-DMODE=%d" % mode, "-DSCALE=60"],
        incs=["ideal"], extra=["ideal/ideal.c"], unwind=1100, maxunwind=2200, timeout=300, **kw)


def hist(name, kind, npkt, scale, **kw):
    return H(name, "crypt_hist.c", CRYPT, defs=["-include", "scale_packet.h", "-DSCALE=%d" % scale,
        "-DHIST=%d" % kind, "-DNPKT=%d" % npkt, "-DIDEAL_NMAC=10", "-DIDEAL_NKS=10"], incs=["ideal"],
        extra=["ideal/ideal.c"], unwind=400, maxunwind=1200, timeout=400, **kw)
