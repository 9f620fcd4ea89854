from common import *
PROP = dict(
 id="P24", title="A number option is accepted exactly if it is a number in range",
 statement="A number given on the command line is accepted exactly if the whole text is one number, written in the base asked for, whose true value (not one wrapped, truncated or NaN) lies within the option's bounds and type; the variable then holds that value. Anything else is refused with EINVAL or ERANGE.",
 quantifier=dict(over=["inputs"], text="all texts of up to 4 characters (thorough: 5) and the ones with up to 2 characters after prefixes near 2^32, 2^63 and 2^64; all bounds; all values, end positions and range errors of strtod"),
 why_tests_cant="Whether a wrapped or special value slips through depends on the exact text, sign, type and bounds; tests try a few well-formed numbers.",
 anchors=dict(files=["libcperciva/util/parsenum.h", "spiped/main.c", "spipe/main.c", "libcperciva/util/setuidgid.c"],
  mechanism=[dict(name="unsigned", where="parsenum.h:parsenum_unsigned"), dict(name="signed", where="parsenum.h:parsenum_signed"), dict(name="floating point", where="parsenum.h:parsenum_float"), dict(name="dispatch on type", where="parsenum.h:PARSENUM_EX6")],
  observe_at=["result, errno and value of PARSENUM"], hook_needed=None))
LEVEL_NOTE = "Every type and form of bounds spiped uses (size_t, uid_t, long with base, double) and further ones; characters and bounds are symbolic."
ASSUMPTIONS = ["strtoimax, strtoumax and strtod do what C99 says (stand-ins in harness/strto.h)"]
OUTSIDE = "longer texts; locales"
def h(name, t, n, pre="", noacc=0, **kw):
    return H("%s%s" % (name, "_" + pre.strip().replace("-", "m") if pre else ""), "parsenum.c", [], defs=["-DTYPE=%d" % t, "-DLEN=%d" % n, '-DPRE="%s"' % pre] + (["-DNOACC"] if noacc else []), unwind=30,
      bounds="%s: %sany 0..%d characters" % (name, "'%s' and " % pre if pre else "", n), **kw)
T = [("size", 0), ("uid", 1), ("port", 2), ("signed", 3), ("unsigned", 4), ("byte", 5), ("hex", 6), ("int", 7)]
HARNESSES = [h(n, t, 4) for n, t in T] + [h(n + "_long", t, 5, tiers=("thorough",), solver="cadical", timeout=900) for n, t in T] + [h("size", 0, 2, "1844674407370955161"), h("size", 0, 2, "-1844674407370955161", noacc=1), h("uid", 1, 2, "429496729"), h("uid", 1, 1, "-1844674407370955160", noacc=1), h("signed", 3, 1, "922337203685477580"), h("signed", 3, 1, "-922337203685477580"), h("port", 2, 2, "6553"), h("unsigned", 4, 1, "1844674407370955161"), h("int", 7, 2, "429496729", noacc=1), h("byte", 5, 1, "0x100000000000000", noacc=1)] + \
 [H("float", "parsenum.c", [], defs=["-DFLOAT"], unwind=8, solver="cadical", bounds="any value, end position and range error of strtod, any bounds")]
