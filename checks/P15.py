from common import *
PROP = dict(
 id="P15", title="The buffered reader presents every received byte once, in order",
 statement="Whatever lengths are waited for, arrive and are consumed, the reader makes available exactly the bytes received and not yet consumed, in order and uncorrupted as its buffer moves and grows, and never reads or writes outside the buffer. A wait is reported once, asynchronously, as soon as the requested amount is available (or with end of file or error), never after being cancelled, and resource failures leave the buffered data intact.",
 quantifier=dict(over=["histories", "inputs", "fault_sequences"], text="all sequences of waits, arrivals, consumptions and cancellations with all sizes in the bound, one resource failure anywhere"),
 why_tests_cant="Compaction and growth meet only for particular sizes around the buffer's length; real traffic uses a few packet sizes.",
 anchors=dict(files=["libcperciva/netbuf/netbuf_read.c"],
  state=[dict(name="struct netbuf_read", meaning="buffer, length, first and last data position", where="libcperciva/netbuf/netbuf_read.c")],
  mechanism=[dict(name="wait", where="netbuf_read.c:netbuf_read_wait"), dict(name="arrival", where="netbuf_read.c:callback_read"), dict(name="consume", where="netbuf_read.c:netbuf_read_consume")],
  observe_at=["netbuf_read_peek", "read requests", "moves of data", "callbacks"], hook_needed=None))
LEVEL_NOTE = "All sequences of two (quick) or three and four (thorough) waits with sizes up to 16 kB; bytes are tracked by position, so every move is checked for all lengths."
ASSUMPTIONS = ["network_read honours P14", "immediate events honour P13"]
OUTSIDE = "TLS-backed readers (not built here), longer sequences, sizes not a multiple of 512 or one more"
def h(n,ns,nf,**kw): return H(n,"netbuf.c",["libcperciva/netbuf/netbuf_read.c"],defs=["-DNSTEP=%d"%ns,"-DNFAULT=%d"%nf,"-DVP_ALLOC_HOOK=sim_fail"],extra=["alloc.c"],renames=["malloc","free","memcpy","memmove"],hrenames=[],unwind=8,fs=8,solver="cadical",
  bounds="%d waits with symbolic sizes up to 16 kB%s" % (ns, ", each of the first %d fallible calls failing" % nf if nf else ""), **kw)
HARNESSES = [h("steps2",2,0),h("faults",2,5),h("steps3",3,0,tiers=("thorough",),timeout=850),h("steps4",4,0,tiers=("thorough",),checks=False,timeout=850,required=False)]
