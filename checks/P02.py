from common import *
PROP = dict(
 id="P02", title="Only packets the peer sent, in the order it sent them, are ever delivered",
 statement="A received 1060-byte packet is accepted if and only if its last 32 bytes equal the HMAC-SHA256, under the MAC key of that direction, of its first 1028 bytes and the expected packet number, and its decrypted length is between 1 and 1024. A rejected packet releases no bytes and a packet with a wrong MAC leaves the expected packet number unchanged. Hence, if MACs cannot be forged, the data released by a receiver is always the beginning of the sequence of packets its peer sent, whatever packets of either direction are presented, altered, repeated or reordered.",
 quantifier=dict(over=["inputs", "histories"], text="all 1060-byte packets at all packet numbers; all adversarial sequences drawn from arbitrary bytes and the packets seen in both directions"),
 why_tests_cant="The existing tests never present a forged, replayed or reordered packet; rejection must hold for every one of 2^8480 packets and in every order of presentation.",
 anchors=dict(files=["lib/proto/proto_crypt.c", "libcperciva/crypto/crypto_verify_bytes.c"],
  state=[dict(name="packet number", meaning="number the next packet must have been MACed with", where="lib/proto/proto_crypt.c struct proto_keys")],
  mechanism=[dict(name="MAC check before decryption", where="lib/proto/proto_crypt.c:proto_crypt_dec"), dict(name="constant-time comparison", where="libcperciva/crypto/crypto_verify_bytes.c"), dict(name="per-direction keys", where="lib/proto/proto_crypt.c:proto_crypt_mkkeys")],
  observe_at=["return value and output buffer of decryption"], hook_needed=None))
LEVEL_NOTE = "Exhaustive over all 1060-byte packets and packet numbers for one decryption at the real size; adversarial histories of 2 (thorough: 3) presented packets with scaled payload."
ASSUMPTIONS = [IDEAL, "history harness: MACs are collision free and unforgeable (a MAC value nobody computed is not guessed), the four derived keys differ", "malloc succeeds"]
OUTSIDE = "timing side channels; adversarial histories longer than 3 presentations (the single step covers every packet number)"
HARNESSES = [
 packet("dec", 2, bounds="one packet, all 1060-byte inputs, all keys and packet numbers"),
 packetmem("decmem", 2, bounds="as dec with payload size 60, memory-safety checks"),
 hist("adv2", 2, 2, 8, bounds="2 packets sent, 1 reverse, 2 presentations, payload size 8", tiers=("quick",)),
 hist("adv3", 2, 3, 16, bounds="3 packets sent, 1 reverse, 3 presentations, payload size 16", tiers=("thorough",)),
]
