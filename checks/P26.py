from common import *
PROP = dict(
 id="P26", title="Privileges are dropped completely and in order, or spiped does not run",
 statement="For every 'user', ':group' or 'user:group' and every outcome of the system calls and lookups, success means that the supplementary groups were left first (where asked), then exactly the named (or numeric) group and last exactly the named user were set, each once; any failure, lookup error, unknown name or empty part is reported, and the user is never changed before the rest is done.",
 quantifier=dict(over=["inputs", "fault_sequences"], text="all texts of up to 5 characters, all IDs, every result of getpwnam, getgrnam, setgroups, getgroups, setgid, setuid, every allocation failing, all three modes"),
 why_tests_cant="Tests do not run as root with failing system calls; a forgotten check or a wrong order leaves the daemon with privileges it reports to have dropped.",
 anchors=dict(files=["libcperciva/util/setuidgid.c", "libcperciva/util/setgroups_none.c", "spiped/main.c"],
  mechanism=[dict(name="parsing", where="setuidgid.c:string_extract_user_group"), dict(name="group", where="setuidgid.c:set_group"), dict(name="user", where="setuidgid.c:set_user"), dict(name="supplementary groups", where="setuidgid.c:check_supplementary_groups_none")],
  observe_at=["setgroups, setgid, setuid calls and their order", "result and errno"], hook_needed=None))
LEVEL_NOTE = "Characters, IDs and outcomes are symbolic; the position of the colon and the failing allocation are enumerated by the symbolic execution."
ASSUMPTIONS = ["one colon at most in the text"]
OUTSIDE = "whether the kernel's setuid() is permanent; user databases"
def h(n, **kw):
    return H("text%d" % n, "setuidgid.c", ["libcperciva/util/setuidgid.c", "libcperciva/util/setgroups_none.c"], defs=["-DLEN=%d" % n, "-DVP_ALLOC_HOOK=sim_fail", "-DVP_NO_STRDUP", "-D__NO_CTYPE"], extra=["alloc.c"],
      renames=["malloc", "free", "strdup", "strlen", "strchr", "memcpy", "isspace", "strtod", "strtoimax", "strtoumax", "getgrnam", "getpwnam", "setgroups", "getgroups", "getegid", "setgid", "setuid"], hrenames=[], unwind=20, solver="cadical", flags=["--object-bits", "12"], bounds="texts of %d characters" % n, **kw)
HARNESSES = [h(n) for n in (0, 1, 2, 3, 4)] + [h(n, tiers=("thorough",), timeout=900) for n in (5, 6)]
