from common import *
PROP = dict(
 id="P01", title="Every packet decrypts to exactly the bytes sent, in the documented wire format",
 statement="For every data length from 0 to 1024 bytes, every content, key and packet number, encryption produces exactly the 1060-byte packet of the protocol document: AES-256-CTR encryption (nonce = packet number) of the data, zero padding and 4-byte big-endian length, followed by HMAC-SHA256 of the 1028 ciphertext bytes and the big-endian 64-bit packet number. Packets of 1 to 1024 bytes decrypted in order under the same keys yield exactly the bytes and lengths that were encrypted.",
 quantifier=dict(over=["inputs", "histories"], text="all plaintexts of 0..1024 bytes, all 512-bit key pairs, all 64-bit packet numbers (one packet); all lengths and contents over sequences of packets"),
 why_tests_cant="The end-to-end tests push a few files of a few sizes through both ends of the same code, so a symmetrical format error, a padding leak or an error at one length or at a large packet number is invisible to them.",
 anchors=dict(files=["lib/proto/proto_crypt.c", "lib/proto/proto_crypt.h", "DESIGN.md"],
  state=[dict(name="packet number", meaning="64-bit counter of packets under one key, nonce and MAC input", where="lib/proto/proto_crypt.c struct proto_keys")],
  mechanism=[dict(name="encryption", where="lib/proto/proto_crypt.c:proto_crypt_enc"), dict(name="decryption", where="lib/proto/proto_crypt.c:proto_crypt_dec"), dict(name="big-endian coding", where="libcperciva/util/sysendian.h")],
  observe_at=["the encrypted packet", "arguments of the MAC and the cipher", "decrypted bytes"], hook_needed=None))
LEVEL_NOTE = "Exhaustive over all inputs of one encryption at the real packet size, and over all round trips of 2 (thorough: 4) packets with the payload size scaled down; cryptographic primitives are uninterpreted functions."
ASSUMPTIONS = [IDEAL, "malloc succeeds", "round trip: payload size scaled by redefining the header's constant, so lengths 1..40 (thorough 1..64)"]
OUTSIDE = "histories of more than 4 packets (the single step starts from an arbitrary packet number)"
HARNESSES = [
 packet("enc", 1, bounds="one packet, all lengths 0..1024, all data, keys, packet numbers"),
 packetmem("encmem", 1, bounds="as enc with payload size 60, memory-safety checks"),
 hist("rt2", 1, 2, 40, bounds="2 packets, payload size 40, all lengths and data", tiers=("quick",)),
 hist("rt4", 1, 4, 64, bounds="4 packets, payload size 64, all lengths and data", tiers=("thorough",)),
 packet("dec", 2, bounds="one packet, all 1060-byte inputs", tiers=("thorough",)),
 packetmem("decmem", 2, bounds="payload size 60, all packets, memory-safety checks"),
]
