from common import *
PROP = dict(
 id="P21", title="The shared secret is the hash of the complete key file, or there is none",
 statement="However the key file (or standard input for '-') is delivered, a secret exists only if the file was read to its end, and it is the SHA-256 hash of all its bytes, each once and in order; otherwise loading fails. The file is closed (standard input is not), the hash state is finished and the secret is cleared before its memory is released, on every path.",
 quantifier=dict(over=["inputs", "fault_sequences"], text="files of any length read in up to four pieces of any size; open, read, close and allocation failures"),
 why_tests_cant="A read error or short read in the middle of the file would yield a valid-looking secret of a prefix, possibly empty; tests have no failing key files.",
 anchors=dict(files=["lib/proto/proto_crypt.c"],
  state=[dict(name="struct proto_secret", meaning="hash of the key file", where="proto_crypt.c")],
  mechanism=[dict(name="loading", where="proto_crypt.c:proto_crypt_secret"), dict(name="release", where="proto_crypt.c:proto_crypt_secret_free")],
  observe_at=["fread, SHA256_Update calls", "the secret", "wiping before free"], hook_needed=None))
LEVEL_NOTE = "Pieces of any size, with end of file or error at any point."
ASSUMPTIONS = ["SHA-256 as in P16"]
OUTSIDE = "more than four reads"
HARNESSES = [H("keyfile", "keyfile.c", ["lib/proto/proto_crypt.c"], defs=["-DVP_ALLOC_HOOK=sim_fail", "-DVP_FREE_HOOK=sim_free"], extra=["alloc.c"], renames=["malloc", "free", "fopen", "fread", "feof", "ferror", "fclose"], hrenames=[], unwind=40, bounds="up to four reads of any size")]
