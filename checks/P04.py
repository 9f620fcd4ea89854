from common import *
PROP = dict(
 id="P04", title="A pipe forwards the exact byte stream, in order, under any chunking, then EOF",
 statement="However the input arrives and the output drains, each direction of a connection processes every byte it receives exactly once and in order - encrypting whatever is there in packets of 1 to 1024 bytes, decrypting whole packets only - and writes exactly the resulting bytes before reading on; nothing decrypted from or after an inauthentic packet is ever written. End of input is passed on by shutting down the destination only after all output has been written and is reported as success (also if the other side is already gone); a read error, short write or bad packet is reported as failure; the owner is told once, nothing happens after cancellation, and buffers are never overrun.",
 quantifier=dict(over=["schedules", "inputs", "fault_sequences"], text="all amounts of buffered data at each wake-up, all packet payload sizes, short or failed writes, read errors, shutdown errors, cancellation and resource failures at any point"),
 why_tests_cant="Chunk boundaries are chosen by the kernel; tests on a loopback interface see few of them and never a partial write or an error at an awkward point.",
 anchors=dict(files=["lib/proto/proto_pipe.c"],
  state=[dict(name="batch", meaning="input consumed and output produced by one wake-up", where="lib/proto/proto_pipe.c:callback_pipe_read")],
  mechanism=[dict(name="batching", where="lib/proto/proto_pipe.c:callback_pipe_read"), dict(name="write then read", where="lib/proto/proto_pipe.c:callback_pipe_write"), dict(name="cancellation", where="lib/proto/proto_pipe.c:proto_pipe_cancel")],
  observe_at=["bytes given to encryption/decryption", "bytes written", "shutdown", "status and completion callback"], hook_needed=None))
LEVEL_NOTE = "Up to 3 batches of up to 10000 buffered bytes (encryption) / 2 batches of 3500 or 1 of 10000 bytes (decryption), real packet and buffer sizes, followed by any ending."
ASSUMPTIONS = ["the buffered reader honours its contract (P15), network writes theirs (P14)", "encryption and decryption are stand-ins which check positions and sizes (P01, P02)", "at most one resource failure"]
OUTSIDE = "more than 3 batches; every batch starts from the same state except for the number of bytes left over"
def h(name, d, x=[], **kw):
    return H(name, "pipe.c", ["lib/proto/proto_pipe.c"], defs=["-DDECR=%d" % d, "-DVP_ALLOC_HOOK=sim_fail"] + x, incs=["sim"],
      extra=["sim/simnet.c", "alloc.c"], renames=["malloc", "calloc", "realloc", "free", "shutdown"], hrenames=[], unwind=12, fs=64, **kw)
HARNESSES = [
 h("enc", 0, bounds="encryption, 5 events, up to 10000 bytes per batch"),
 h("dec", 1, ["-DNEV=3", "-DMAXIN=3500"], bounds="decryption, 3 events, up to 3500 bytes buffered"),
 h("decfull", 1, ["-DNEV=1"], bounds="decryption, one batch of up to 10000 bytes"),
 h("enc9", 0, ["-DNEV=9"], tiers=("thorough",), timeout=800, bounds="encryption, 9 events"),
 h("dec5", 1, ["-DNEV=5"], tiers=("thorough",), timeout=800, required=False, bounds="decryption, 5 events, up to 10000 bytes per batch"),
]
