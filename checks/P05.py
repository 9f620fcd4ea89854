from common import *
PROP = dict(
 id="P05", title="Both ends derive the same per-direction keys, exactly as documented",
 statement="For every shared secret, every pair of nonces and every combination of the two ends' forward-secrecy settings, client and server derive the same keys: dk_1 = PBKDF2(K, nonce_C || nonce_S) gives the two handshake MAC keys, dk_2 = PBKDF2(K, nonce_C || nonce_S || y_SC) gives E_C, H_C, E_S and H_S, where y_SC is the shared Diffie-Hellman value, or 1 if and only if either end disabled forward secrecy. Each end's outgoing key is the other's incoming key; an allocation or Diffie-Hellman failure is reported and leaks nothing.",
 quantifier=dict(over=["inputs", "configurations", "fault_sequences"], text="all secrets, nonces, Diffie-Hellman values and forward-secrecy settings; any allocation or Diffie-Hellman step failing"),
 why_tests_cant="Two ends built from the same wrong code still talk to each other; only comparison with the documented derivation for all values shows that the roles, the order of the nonces and the forward-secrecy rule are right.",
 anchors=dict(files=["lib/proto/proto_crypt.c", "DESIGN.md"],
  mechanism=[dict(name="handshake MAC keys", where="lib/proto/proto_crypt.c:proto_crypt_dhmac"), dict(name="session keys", where="lib/proto/proto_crypt.c:proto_crypt_mkkeys"), dict(name="public value and its MAC", where="lib/proto/proto_crypt.c:proto_crypt_dh_generate")],
  observe_at=["PBKDF2 inputs", "cipher and MAC keys of the resulting key pair", "the transmitted public value"], hook_needed=None))
LEVEL_NOTE = "All values of one complete handshake's derivations on both sides, for each combination of forward-secrecy settings; primitives uninterpreted."
ASSUMPTIONS = [IDEAL, "Diffie-Hellman: both ends compute the same value from each other's public values (P08 checks the arithmetic); the two key pairs are distinct and not 1", "payload size scaled to 8 bytes"]
OUTSIDE = "reading the key file (P21); the order of messages (P07)"
REN = ["fopen", "fread", "feof", "ferror", "fclose"]
AREN = ["malloc", "calloc", "realloc", "free"]
def h(name, k, x=[], **kw):
    kw.setdefault("srcs", CRYPT)
    kw.setdefault("unwind", 400)
    return H(name, "crypt_keys.c", defs=["-include", "group14_size.h", "-include", "scale_packet.h", "-DSCALE=8", "-DKEYS=%d" % k, "-DIDEAL_NMAC=4",
      "-DIDEAL_NKS=4", "-DIDEAL_NKDF=4", "-DIDEAL_MAXMSG=256"]+x, hrenames=[], renames=REN + AREN, incs=["ideal"], extra=["ideal/ideal.c", "alloc.c"],
      maxunwind=1200, timeout=600, fs=400, **kw)
HARNESSES = [h("agree%d%d" % (a, b), 1, x=["-DNC=%d" % a, "-DNS=%d" % b], checks=False,
               bounds="one handshake, -f %s at the client, %s at the server; all values" % ("on" if a else "off", "on" if b else "off")) for a in (0, 1) for b in (0, 1)] + [
 h("agreemem", 1, x=["-DNC=0", "-DNS=0"], tiers=("thorough",), bounds="as agree00 with memory-safety checks"),
 h("fail", 2, x=["-DIDEAL_TRIVIAL"], bounds="one derivation, every allocation and Diffie-Hellman step may fail; no leak"),
]
