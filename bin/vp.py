#!/usr/bin/env python3
"""Engine of the solver-based checks.

  vp.py PROPERTY [--tier quick|thorough] [--only HARNESS] [-v] [--keep]

For every harness of a property (checks/<PROPERTY>.py) the engine

  1. compiles the harness together with the real sources in /repo's working
     tree with goto-cc (nothing is cached between runs),
  2. runs CBMC on it: symbolic execution, every assertion (the harness's own,
     the code's assert()s, memory safety, integer overflow and the unwinding
     assertions) becomes a query to a SAT solver,
  3. requires every reachability witness of the harness to be *violated* (a
     vacuous harness passes nothing) and replays the witness natively,
  4. replays each counterexample against the same real sources compiled by
     gcc with ASan and UBSan, and reports only what reproduces.

Exit: 0 held; 1 VIOLATION; 2 undecided (solver limit, does not compile, or a
counterexample that does not reproduce natively).
"""
import argparse, concurrent.futures as cf, importlib.util, json, os, re
import resource, shutil, subprocess, sys, tempfile, time
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.environ.get("VP_OUT", os.path.join(VERIF, "out"))

INCDIRS = ["lib/dnsthread", "lib/proto", "lib/util", "libcperciva/alg",
    "libcperciva/cpusupport", "libcperciva/crypto", "libcperciva/datastruct",
    "libcperciva/events", "libcperciva/external/queue", "libcperciva/netbuf",
    "libcperciva/network", "libcperciva/util", "spiped", "spipe"]
BASEDEFS = ["-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700"]
NPROC = os.cpu_count() or 4


class H:
    """One harness: a C file in harness/ plus real sources."""
    def __init__(self, name, harness, srcs=(), defs=(), incs=(), renames=(),
                 hrenames=None, unwind=8, unwindset=(), flags=(), tiers=("quick", "thorough"),
                 timeout=300, mem=7, solver=None, maxunwind=None, extra=(),
                 bounds="", required=True, leak=False, fallback=None,
                 mayfail=False, native_flags=(), witnesses=None, san=True,
                 native_libs=(), fs=300, checks=True, weight=1):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def clone(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return H(**d)


def run(cmd, timeout=None, mem=None, env=None, cwd=None, out=None):
    def lim():
        os.setsid()
        if mem:
            b = int(mem * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    t0 = time.time()
    f = open(out, "wb") if out else subprocess.PIPE
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT,
        stdin=subprocess.DEVNULL, preexec_fn=lim, env=env, cwd=cwd)
    try:
        o, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, _ = p.communicate()
        rc = "timeout"
    if out:
        f.close()
        o = b""
    return rc, (o or b"").decode("utf-8", "replace"), time.time() - t0


def rsrc(s):
    return s if os.path.isabs(s) else os.path.join(REPO, s)


def incflags(h):
    r = ["-I" + os.path.join(VERIF, "harness")]
    for i in h.incs:
        r.append("-I" + (i if os.path.isabs(i) else os.path.join(VERIF, "harness", i)))
    r += ["-I" + os.path.join(REPO, d) for d in INCDIRS]
    return r


def units(h):
    """[(path, flags, kind)] of everything that is compiled."""
    ren = ["-D%s=vp_%s" % (r, r) for r in h.renames]
    u = []
    hr = ren if h.hrenames is None else ["-D%s=vp_%s" % (r, r) for r in h.hrenames]
    u.append((os.path.join(VERIF, "harness", h.harness), hr, "harness"))
    u.append((os.path.join(VERIF, "harness", "vp_rt.c"), [], "rt"))
    for e in h.extra:
        u.append((os.path.join(VERIF, "harness", e), hr, "harness"))
    for s in h.srcs:
        extra = []
        if isinstance(s, tuple):
            s, extra = s[0], list(s[1])
        u.append((rsrc(s), ren + extra, "real"))
    return u


def compile_all(h, cc, dst, defs, native):
    objs = []
    for i, (path, fl, kind) in enumerate(units(h)):
        o = os.path.join(dst, "%s%d.o" % ("n" if native else "g", i))
        cmd = cc + ["-c", "-std=gnu99"] + BASEDEFS + incflags(h) + list(defs) + fl + [path, "-o", o]
        rc, out, _ = run(cmd, timeout=120)
        if rc != 0:
            return None, "%s: %s" % (os.path.basename(path), out[-2000:])
        objs.append(o)
    return objs, ""


RES = re.compile(r"^\[(.*?)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def parse_output(path):
    """Properties, traces (input values), and statistics of a CBMC run."""
    props, traces, stats = [], {}, dict(vccs=0, remaining=0, steps=0, vars=0,
        clauses=0, solver=0.0, symex=0.0, queries=0)
    cur, curfile, curfn, ended = None, None, None, None
    vin = re.compile(r"^  vp_in=.*\(([01 ]+)\)$")
    with open(path, errors="replace") as f:
        for line in f:
            line = line.rstrip("\n")
            if cur is None:
                m = RES.match(line)
                if m:
                    props.append(dict(id=m.group(1), line=m.group(2), desc=m.group(3),
                        status=m.group(4), file=curfile, fn=curfn))
                    continue
                m = re.match(r"^(\S.*) function (\S+)$", line)
                if m:
                    curfile, curfn = m.group(1), m.group(2)
                    continue
                m = re.match(r"^size of program expression: (\d+) steps", line)
                if m:
                    stats["steps"] = int(m.group(1))
                m = re.match(r"^Generated (\d+) VCC\(s\), (\d+) remaining", line)
                if m:
                    stats["vccs"], stats["remaining"] = int(m.group(1)), int(m.group(2))
                m = re.match(r"^(\d+) variables, (\d+) clauses", line)
                if m:
                    stats["vars"], stats["clauses"] = int(m.group(1)), int(m.group(2))
                    
                m = re.match(r"^Runtime Solver: ([\d.e+-]+)s", line)
                if m:
                    stats["solver"] += float(m.group(1))
                    stats["queries"] += 1
                m = re.match(r"^Runtime Symex: ([\d.e+-]+)s", line)
                if m:
                    stats["symex"] += float(m.group(1))
            m = re.match(r"^Trace for (.*):$", line)
            if m:
                cur = m.group(1)
                traces[cur] = []
                continue
            if cur is not None:
                if line.startswith("  vp_in="):
                    m = vin.match(line)
                    if m:
                        traces[cur].append(int(m.group(1).replace(" ", ""), 2))
                    else:
                        # An aggregate: one value per byte.
                        i = line.rfind("({")
                        if i >= 0:
                            traces[cur] += [int(b, 2) for b in re.findall(r"[01]{8}", line[i:])]
            m = re.match(r"^\*\* (\d+) of (\d+) failed", line)
            if m:
                ended = (int(m.group(1)), int(m.group(2)))
    return props, traces, stats, ended


def coverage_functions(xml):
    """{repo file: {function: (lines hit, lines)}} from the symex coverage report."""
    res = {}
    try:
        root = ET.parse(xml).getroot()
    except Exception:
        return res
    for cl in root.iter("class"):
        fn = cl.get("filename") or ""
        if "/repo/" not in "/" + fn and not fn.startswith(REPO):
            continue
        for m in cl.iter("method"):
            ls = list(m.iter("line"))
            hit = sum(1 for l in ls if int(l.get("hits", "0")) > 0)
            if hit:
                res.setdefault(os.path.relpath(fn, REPO), {})[m.get("name")] = (hit, len(ls))
    return res


class Result:
    pass


def build_native(h, work, defs):
    cc = ["gcc", "-g", "-O1", "-w", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE"] + list(h.native_flags)
    if h.san:
        cc += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
    objs, err = compile_all(h, cc, work, defs, True)
    if objs is None:
        return None, err
    exe = os.path.join(work, "native")
    rc, out, _ = run(cc + objs + ["-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-lpthread", "-lm"] + list(h.native_libs), timeout=120)
    if rc != 0:
        return None, out[-2000:]
    return exe, ""


def replay(exe, inputs, timeout=20):
    env = dict(os.environ, VP_REPLAY=inputs,
        ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=1:detect_stack_use_after_return=1",
        UBSAN_OPTIONS="print_stacktrace=0:exitcode=43")
    rc, out, _ = run([exe], timeout=timeout, env=env)
    return rc, out


def cbmc_once(h, work, gb, unwind, timeout, tag, log):
    out = os.path.join(work, "cbmc-%s.txt" % tag)
    cov = os.path.join(work, "cov-%s.xml" % tag)
    cmd = ["cbmc", gb, "--trace", "--unwinding-assertions", "--drop-unused-functions",
        "--verbosity", "8", "--symex-coverage-report", cov,
        "--unwind", str(unwind), "--object-bits", "10"]
    if not h.mayfail:
        cmd.append("--no-malloc-may-fail")
    if h.leak:
        cmd.append("--memory-leak-check")
    cmd += ["--max-field-sensitivity-array-size", str(h.fs)]
    if not h.checks:
        cmd.append("--no-standard-checks")
    for us in h.unwindset:
        cmd += ["--unwindset", us]
    if h.solver:
        cmd += ["--sat-solver", h.solver]
    cmd += list(h.flags)
    if "--object-bits" in h.flags:
        i = cmd.index("--object-bits")
        del cmd[i:i + 2]
    rc, _, wall = run(cmd, timeout=timeout, mem=h.mem, out=out)
    props, traces, stats, ended = parse_output(out)
    stats["wall"] = wall
    if os.environ.get("VP_DEBUG"):
        log("    cmd: " + " ".join(cmd))
    tail = ""
    if rc not in (0, 10) or ended is None:
        with open(out, errors="replace") as f:
            tail = f.read()[-600:]
    return rc, props, traces, stats, ended, cov, tail


def run_harness(pid, h, tier, verbose, keep):
    r = Result()
    r.h, r.status, r.note, r.violations = h, "ok", "", []
    r.stats, r.funcs, r.nprops, r.nwit, r.replayed, r.witness = {}, {}, 0, 0, 0, []
    r.unwind = h.unwind
    work = tempfile.mkdtemp(prefix="vp-%s-%s-" % (pid, h.name))
    msgs = []
    log = msgs.append
    try:
        defs = list(h.defs)
        symdefs = ["-DVP_NOWITNESS"] if h.solver == "sweep" else []
        objs, err = compile_all(h, ["goto-cc", "-w", "-DVP_SYM=1"] + symdefs, work, defs, False)
        if objs is None and h.fallback is not None:
            log("  %s: does not compile, using fallback: %s" % (h.name, err))
            defs = list(h.fallback)
            objs, err = compile_all(h, ["goto-cc", "-w", "-DVP_SYM=1"], work, defs, False)
        if objs is None:
            r.status, r.note = "undecided", "does not compile: " + err
            return r, msgs
        gb = os.path.join(work, "x.gb")
        rc, out, _ = run(["goto-cc"] + objs + ["-o", gb], timeout=120)
        if rc != 0:
            r.status, r.note = "undecided", "does not link: " + out[-1500:]
            return r, msgs

        if h.solver == "sweep":
            run_sweep(pid, h, r, work, gb, defs, log)
            return r, msgs

        unwind = h.unwind
        cap = h.maxunwind or h.unwind * 4
        deadline = time.time() + h.timeout
        while True:
            rc, props, traces, stats, ended, cov, tail = cbmc_once(h, work, gb, unwind,
                max(5, deadline - time.time()), str(unwind), log)
            if rc not in (0, 10) or ended is None:
                r.status, r.note = "undecided", "CBMC: rc=%s unwind=%d %s" % (rc, unwind, tail)
                r.stats = stats
                return r, msgs
            fails = [p for p in props if p["status"] != "SUCCESS" and not p["desc"].startswith("WITNESS")]
            unw = [p for p in fails if ".unwind." in p["id"] or "recursion unwinding" in p["desc"]]
            if unw and len(unw) == len(fails) and unwind < cap:
                unwind = min(cap, unwind * 2)
                log("  %s: unwinding bound too small at %s; retrying with %d" % (h.name,
                    ",".join(p["id"] for p in unw)[:200], unwind))
                continue
            break
        r.unwind = unwind
        r.stats = stats
        r.nprops = len(props)
        r.funcs = coverage_functions(cov)
        wit = [p for p in props if p["desc"].startswith("WITNESS")]
        r.nwit = len(wit)
        nobody = [p for p in fails if ".no-body." in p["id"]]
        if nobody:
            r.status, r.note = "undecided", "calls functions the harness does not model: " + \
                ", ".join(sorted({p["id"].split(".no-body.")[1] for p in nobody}))
            return r, msgs
        real = [p for p in fails if p not in unw]

        exe, err = build_native(h, work, defs)
        if exe is None:
            r.status, r.note = "undecided", "native build failed: " + err
            return r, msgs

        # Counterexamples.
        real.sort(key=lambda p: not p["desc"].startswith("VP:"))
        for p in real[:60]:
            if len(r.violations) >= 3:
                break
            vals = traces.get(p["id"], [])
            inp = os.path.join(work, "cex.txt")
            with open(inp, "w") as f:
                f.write("".join("%d\n" % v for v in vals))
            nrc, nout = replay(exe, inp)
            repro = nrc not in (0, 77)
            log("  %s: counterexample %s [%s:%s %s] native exit %s %s" % (h.name, p["id"], p["file"],
                p["line"], p["desc"], nrc, "(reproduced)" if repro else "(NOT reproduced)"))
            if nrc == "timeout":
                repro = True
            if verbose and repro:
                log("    " + nout[-1500:].replace("\n", "\n    "))
            if repro:
                d = os.path.join(OUT, "replay", pid, "%s-%s" % (h.name, re.sub(r"[^\w.]", "_", p["id"])))
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                shutil.copy(inp, os.path.join(d, "inputs.txt"))
                shutil.copy(exe, os.path.join(d, "native"))
                with open(os.path.join(d, "README"), "w") as f:
                    f.write("property %s, harness %s, query %s\n%s:%s %s\n\nReplay: VP_REPLAY=inputs.txt ./native\n\n%s\n" %
                        (pid, h.name, p["id"], p["file"], p["line"], p["desc"], nout[-4000:]))
                r.violations.append(dict(harness=h.name, prop=p["id"], desc=p["desc"], path=d,
                    file=p["file"], line=p["line"], native=str(nrc), out=nout[-600:]))
        if r.violations:
            r.status = "violation"
            return r, msgs
        if real:
            r.status = "undecided"
            r.note = "counterexample does not reproduce natively: " + "; ".join(
                "%s %s:%s %s" % (p["id"], p["file"], p["line"], p["desc"]) for p in real[:3])
            if keep:
                with open(os.path.join(work, "cex.txt")) as f:
                    pass
            return r, msgs
        if unw:
            r.status, r.note = "undecided", "unwinding bound %d too small: %s" % (unwind,
                ", ".join("%s line %s" % (p["id"], p["line"]) for p in unw[:5]))
            return r, msgs

        # Witnesses: every one must be reachable, and its trace must replay.
        dead = [p for p in wit if p["status"] == "SUCCESS"]
        if not wit or dead:
            r.status, r.note = "undecided", "vacuous: unreachable witness %s" % (
                ", ".join(p["desc"] for p in dead) or "(harness has none)")
            return r, msgs
        for p in wit:
            vals = traces.get(p["id"], [])
            inp = os.path.join(work, "wit.txt")
            with open(inp, "w") as f:
                f.write("".join("%d\n" % v for v in vals))
            nrc, nout = replay(exe, inp)
            name = p["desc"][len("WITNESS: "):]
            if ("VP-WITNESS " + name) not in nout or nrc in (42, 43):
                r.status = "undecided"
                r.note = "witness '%s' does not replay natively (exit %s): %s" % (name, nrc, nout[-500:])
                return r, msgs
            r.replayed += 1
            if len(r.witness) < 2:
                r.witness.append(dict(witness=name, inputs=vals[:24], ninputs=len(vals)))
        return r, msgs
    finally:
        if keep:
            log("  work dir: " + work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def run_sweep(pid, h, r, work, gb, defs, log):
    """The same, decided by word-level sweeping with Z3 (bin/sweep.py)."""
    deadline = time.time() + h.timeout
    smt, res, cov = (os.path.join(work, n) for n in ("x.smt2", "sweep.json", "cov.xml"))
    rc, out, t1 = run(["cbmc", gb, "--unwinding-assertions", "--drop-unused-functions", "--unwind", str(h.unwind),
        "--no-standard-checks", "--verbosity", "8", "--max-field-sensitivity-array-size", str(h.fs), "--symex-coverage-report", cov,
        "--smt2", "--z3", "--outfile", smt] + list(h.flags), timeout=h.timeout, mem=h.mem)
    if not os.path.exists(smt) or rc != 0:
        r.status, r.note = "undecided", "CBMC: rc=%s %s" % (rc, out[-500:])
        return
    m = re.search(r"size of program expression: (\d+) steps", out)
    r.stats = dict(steps=int(m.group(1)) if m else 0, symex=t1, wall=t1)
    m = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", out)
    if m:
        r.stats.update(vccs=int(m.group(1)), remaining=int(m.group(2)))
        r.nprops = int(m.group(1))
    if os.path.exists(cov):
        r.funcs = coverage_functions(cov)
    left = max(5, deadline - time.time())
    rc, out, t2 = run(["python3-vt", os.path.join(VERIF, "bin", "sweep.py"), smt, res, str(int(left))],
        timeout=left + 30, mem=h.mem)
    r.stats["wall"] = t1 + t2
    if not os.path.exists(res):
        r.status, r.note = "undecided", "sweep: rc=%s %s" % (rc, out[-500:])
        return
    with open(res) as f:
        d = json.load(f)
    r.stats.update(solver=d["stats"]["solver"], queries=d["stats"]["queries"], vars=d["stats"]["nodes"], clauses=0)
    if d["status"] == "undecided":
        r.status, r.note = "undecided", d["note"]
        return
    exe, err = build_native(h, work, defs)
    if exe is None:
        r.status, r.note = "undecided", "native build failed: " + err
        return
    ins = {int(k): v for k, v in d.get("inputs", {}).items()}
    if d["status"] == "ok":
        # Any inputs will do to show that the assertions are reached.
        ins = {i + 1: (i * 0x9e3779b1) & 0xffffffff for i in range(64)}
    vals = [ins.get(i + 1, 0) for i in range(max(ins) if ins else 0)]
    inp = os.path.join(work, "cex.txt")
    with open(inp, "w") as f:
        f.write("".join("%d\n" % v for v in vals))
    nrc, nout = replay(exe, inp)
    if d["status"] == "ok":
        if "VP-WITNESS" not in nout or nrc in (42, 43):
            r.status, r.note = "undecided", "does not run natively (exit %s): %s" % (nrc, nout[-500:])
            return
        r.replayed, r.nwit = 1, 1
        r.witness.append(dict(witness=re.search("VP-WITNESS (.*)", nout).group(1), inputs=vals[:24], ninputs=len(vals)))
        return
    if nrc in (0, 77):
        r.status, r.note = "undecided", "counterexample does not reproduce natively"
        return
    log("  %s: counterexample, native exit %s (reproduced)" % (h.name, nrc))
    dd = os.path.join(OUT, "replay", pid, h.name)
    shutil.rmtree(dd, ignore_errors=True)
    os.makedirs(dd)
    shutil.copy(inp, os.path.join(dd, "inputs.txt"))
    shutil.copy(exe, os.path.join(dd, "native"))
    with open(os.path.join(dd, "README"), "w") as f:
        f.write("property %s, harness %s\n\nReplay: VP_REPLAY=inputs.txt ./native\n\n%s\n" % (pid, h.name, nout[-4000:]))
    r.violations.append(dict(harness=h.name, prop="sweep", desc=nout.strip().splitlines()[-1][:200] if nout.strip() else "",
        path=dd, file=h.harness, line=0, native=str(nrc), out=nout[-600:]))
    r.status = "violation"


def load_check(pid):
    sys.path[:0] = [os.path.join(VERIF, "bin"), os.path.join(VERIF, "checks")]
    sys.modules.setdefault("vp", sys.modules[__name__])
    p = os.path.join(VERIF, "checks", pid + ".py")
    spec = importlib.util.spec_from_file_location("check_" + pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def known_findings(pid):
    """Known findings: {(harness, description)} for this property."""
    res = []
    try:
        with open(os.path.join(VERIF, "known-findings.jsonl")) as f:
            for line in f:
                line = line.strip()
                if not line or not line.startswith("{"):
                    continue
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    res.append(d)
    except FileNotFoundError:
        pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--noevidence", action="store_true")
    ap.add_argument("-j", type=int, default=NPROC)
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    m = load_check(pid)
    hs = [h for h in m.HARNESSES if a.tier in h.tiers]
    if a.only:
        hs = [h for h in m.HARNESSES if re.fullmatch(a.only, h.name)]
    shutil.rmtree(os.path.join(OUT, "replay", pid), ignore_errors=True)
    results = []
    with cf.ThreadPoolExecutor(max_workers=a.j) as ex:
        futs = [ex.submit(run_harness, pid, h, a.tier, a.v, a.keep) for h in sorted(hs, key=lambda h: -h.weight)]
        for f in cf.as_completed(futs):
            r, msgs = f.result()
            results.append(r)
            print("%s/%s: %s %s [%s assertions, %d witnesses, %d steps, %.1fs (solver %.1fs)]" % (pid, r.h.name,
                r.status, r.note, r.nprops, r.nwit, r.stats.get("steps", 0), r.stats.get("wall", 0),
                r.stats.get("solver", 0)), flush=True)
            for s in msgs:
                print(s, flush=True)
    wall = time.time() - t0
    known = known_findings(pid)
    viols, knowns = [], []
    for r in results:
        for v in r.violations:
            k = next((k for k in known if k["harness"] == v["harness"] and k["match"] in (v["desc"] + " " + v["out"])), None)
            if k:
                knowns.append((k, v))
            else:
                viols.append(v)
    undec = [r for r in results if r.status == "undecided" and r.h.required]
    soft = [r for r in results if r.status == "undecided" and not r.h.required]
    funcs = {}
    for r in results:
        for fn, d in r.funcs.items():
            for name, (hit, tot) in d.items():
                o = funcs.setdefault(fn, {}).get(name, (0, tot))
                funcs[fn][name] = (max(o[0], hit), tot)
    S = lambda k: sum(r.stats.get(k, 0) for r in results)
    ev = dict(property=pid, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(
            states=int(S("steps")),
            transitions=int(S("vccs")),
            traces_validated_against_impl=sum(r.replayed for r in results),
            samples=[dict(harness=r.h.name, bounds=r.h.bounds, **w) for r in results for w in r.witness][:12] or
                [dict(harness=r.h.name, status=r.status, note=r.note[:300]) for r in results][:5],
            meaning="bounded model checking: states = SSA steps of the symbolic executions, transitions = "
                "verification conditions generated; traces_validated_against_impl = solver traces (reachability "
                "witnesses) replayed against the natively compiled real code",
            assertions_decided=sum(r.nprops - r.nwit for r in results if r.status in ("ok", "violation")),
            witnesses_reached=sum(r.nwit for r in results if r.status == "ok"),
            queries_discharged=int(S("queries")),
            vccs_after_simplification=int(S("remaining")),
            solver_variables=int(S("vars")), solver_clauses=int(S("clauses")),
            solver_s=round(S("solver"), 2), symex_s=round(S("symex"), 2),
            functions_encoded={fn: {n: "%d/%d lines reached" % c for n, c in sorted(d.items())} for fn, d in sorted(funcs.items())},
            harnesses=[dict(name=r.h.name, harness=r.h.harness, status=r.status, bounds=r.h.bounds, unwind=r.unwind,
                assertions=r.nprops - r.nwit, witnesses=r.nwit, steps=r.stats.get("steps", 0),
                solver_s=round(r.stats.get("solver", 0), 2), wall_s=round(r.stats.get("wall", 0), 2),
                note=r.note[:500]) for r in sorted(results, key=lambda r: r.h.name)],
            outside_the_claim=getattr(m, "OUTSIDE", ""),
        ),
        assumptions=list(getattr(m, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2), violations=len(viols))
    if not a.only and not a.noevidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    for k in {k["id"]: k for k, _ in knowns}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for v in viols:
        print("VIOLATION property=%s replay=%s" % (pid, v["path"]))
        print("  %s: %s:%s %s (native exit %s)" % (v["harness"], v["file"], v["line"], v["desc"], v["native"]))
    print("%s %s: %d harnesses, %d violations, %d undecided, %.1fs" % (pid, a.tier, len(results), len(viols),
        len(undec) + len(soft), wall))
    if viols:
        return 1
    return 2 if undec else 0


if __name__ == "__main__":
    sys.exit(main())
