from common import *
PROP = dict(
 id="P03", title="No keystream is ever used twice; packet numbers count every packet from 0",
 statement="Under the keys of one connection, no two encrypted packets - in the same or in opposite directions - use the same AES key and nonce: each direction has its own encryption and MAC key, the first packet has number 0, and each encryption or successful MAC verification advances the number by exactly one. The number bound by the MAC is the number that selected the keystream.",
 quantifier=dict(over=["histories", "inputs"], text="all interleavings of packets sent in both directions, from every 64-bit packet number, with all lengths including 0"),
 why_tests_cant="Reusing a keystream does not disturb decryption, so no end-to-end test can notice it.",
 anchors=dict(files=["lib/proto/proto_crypt.c"],
  state=[dict(name="packet number", meaning="nonce of the next packet", where="lib/proto/proto_crypt.c struct proto_keys")],
  mechanism=[dict(name="increment per packet", where="lib/proto/proto_crypt.c:proto_crypt_enc"), dict(name="key separation", where="lib/proto/proto_crypt.c:proto_crypt_mkkeys")],
  observe_at=["key and nonce arguments of the cipher"], hook_needed=None))
LEVEL_NOTE = "Histories of 3 (thorough: 5) packets interleaved over both directions from packet number 0, plus one step from every 64-bit packet number."
ASSUMPTIONS = [IDEAL, "the 128 bytes of key material are not periodic (the two directions' derived keys differ)", "malloc succeeds"]
OUTSIDE = "wrap-around after 2^64 packets"
HARNESSES = [
 hist("nonce3", 3, 3, 8, bounds="3 packets in any interleaving of directions, payload size 8", tiers=("quick",)),
 hist("nonce5", 3, 5, 16, bounds="5 packets in any interleaving of directions, payload size 16", tiers=("thorough",)),
 packetmem("encstep", 1, bounds="one encryption from any packet number, payload size 60"),
 packetmem("decstep", 2, bounds="one decryption from any packet number, payload size 60"),
 packet("enc", 1, bounds="one packet, all lengths 0..1024, all data, keys, packet numbers", tiers=("thorough",)),
]
