"""Word-level sweeping: decides a formula written by CBMC (--smt2) that says
"some assertion fails", for code whose two sides are many-round computations.

  sweep.py FORMULA.smt2 RESULT.json [SECONDS]

The formula's terms are rebuilt bottom-up; two terms that agree on random
values are candidates for being equal, and Z3 decides each candidate with the
surroundings cut away (fresh variables for the cut terms, so "equal" holds for
all values).  Proved pairs are merged.  If the goal becomes false, the
assertions hold for every input.  If the goal is true for one of the random
values, that is a counterexample (confirmed by Z3 on the original formula).
Otherwise Z3 gets the remaining goal as it is.
"""
import json, random, re, sys, time
import z3

T0 = time.time()
LIMIT = float(sys.argv[3]) if len(sys.argv) > 3 else 300
NV = 12                                     # random valuations
stats = dict(nodes=0, merges=0, queries=0, proved=0, solver=0.0)
rng = random.Random(12345)

# ---------------------------------------------------------------- own terms
# A node is an index into NODES: (op, args, width, param); width 0 is Bool.
NODES, INDEX, VALS, REP = [], {}, [], []
M = lambda w: (1 << w) - 1


def evalop(op, a, w, p, aw):
    if op == "add": return sum(a) & M(w)
    if op == "mul": return (a[0] * a[1]) & M(w)
    if op == "sub": return (a[0] - a[1]) & M(w)
    if op == "and": return a[0] & a[1]
    if op == "or": return a[0] | a[1]
    if op == "xor": return a[0] ^ a[1]
    if op == "not": return a[0] ^ M(w)
    if op == "neg": return -a[0] & M(w)
    if op == "ext": return (a[0] >> p[1]) & M(p[0] - p[1] + 1)
    if op == "cat":
        r = 0
        for x, xw in zip(a, aw):
            r = (r << xw) | x
        return r
    if op == "shl": return (a[0] << a[1]) & M(w) if a[1] < w else 0
    if op == "lshr": return a[0] >> a[1] if a[1] < w else 0
    if op == "ashr":
        s = a[0] - (1 << w) if a[0] >> (w - 1) else a[0]
        return (s >> min(a[1], w)) & M(w)
    if op == "udiv": return a[0] // a[1] if a[1] else M(w)
    if op == "urem": return a[0] % a[1] if a[1] else a[0]
    if op == "eq": return int(a[0] == a[1])
    if op == "ult": return int(a[0] < a[1])
    if op == "ule": return int(a[0] <= a[1])
    if op in ("slt", "sle"):
        ww = aw[0]
        s = [x - (1 << ww) if x >> (ww - 1) else x for x in a]
        return int(s[0] < s[1] if op == "slt" else s[0] <= s[1])
    if op == "bnot": return 1 - a[0]
    if op == "band": return int(all(a))
    if op == "bor": return int(any(a))
    if op == "bxor": return a[0] ^ a[1]
    if op == "ite": return a[1] if a[0] else a[2]
    raise NotImplementedError(op)


def W(n): return NODES[n][2]
def op(n): return NODES[n][0]
def isc(n): return NODES[n][0] == "const"
def cv(n): return NODES[n][3]


def raw(o, args, w, p=None):
    key = (o, args, w, p)
    if key in INDEX:
        return REP[INDEX[key]]
    n = len(NODES)
    NODES.append(key)
    INDEX[key] = n
    REP.append(n)
    if o == "const":
        VALS.append((p,) * NV)
    elif o == "var":
        VALS.append(tuple(rng.getrandbits(max(w, 1)) for _ in range(NV)))
    else:
        aw = [W(x) for x in args]
        VALS.append(tuple(evalop(o, [VALS[x][i] for x in args], w, p, aw) for i in range(NV)))
    return cand(n)


def const(v, w): return raw("const", (), w, v & M(w) if w else v)
def var(name, w): return raw("var", (), w, name)


# Segments: a term as a list of slices, so that byte shuffling disappears.
def segs(n):
    return list(NODES[n][1]) if op(n) == "cat" else [n]


def ext(n, hi, lo):
    if lo == 0 and hi == W(n) - 1:
        return n
    if isc(n):
        return const(cv(n) >> lo, hi - lo + 1)
    if op(n) == "ext":
        l0 = NODES[n][3][1]
        return ext(NODES[n][1][0], hi + l0, lo + l0)
    if op(n) == "cat":
        out, pos = [], W(n)
        for s in segs(n):
            pos -= W(s)
            h, l = min(hi, pos + W(s) - 1), max(lo, pos)
            if h >= l:
                out.append(ext(s, h - pos, l - pos))
        return cat(out)
    if op(n) in ("and", "or", "xor") and any(op(a) in ("cat", "const") for a in NODES[n][1]):
        return bitop(op(n), *[ext(a, hi, lo) for a in NODES[n][1]])
    return raw("ext", (n,), hi - lo + 1, (hi, lo))


def base(n):
    if op(n) == "ext":
        return NODES[n][1][0], NODES[n][3][0], NODES[n][3][1]
    return n, W(n) - 1, 0


def cat(parts):
    out = []
    for p in parts:
        for s in segs(p):
            if out:
                t = out[-1]
                if isc(t) and isc(s):
                    out[-1] = const((cv(t) << W(s)) | cv(s), W(t) + W(s))
                    continue
                b1, h1, l1 = base(t)
                b2, h2, l2 = base(s)
                if b1 == b2 and l1 == h2 + 1 and not isc(t) and not isc(s):
                    out[-1] = ext(b1, h1, l2)
                    continue
            out.append(s)
    if len(out) == 1:
        return out[0]
    return raw("cat", tuple(out), sum(W(s) for s in out))


def bitop(o, a, b):
    w = W(a)
    if op(a) == "cat" or op(b) == "cat":
        cuts, pos = {0, w}, w
        for x in (a, b):
            pos = w
            for s in segs(x):
                pos -= W(s)
                cuts.add(pos)
        # Only split where a constant makes a part disappear.
        if any(isc(s) for x in (a, b) for s in segs(x)):
            cs = sorted(cuts, reverse=True)
            return cat([bitop(o, ext(a, h - 1, l), ext(b, h - 1, l)) for h, l in zip(cs, cs[1:])])
    if isc(a) and isc(b):
        return const({"and": cv(a) & cv(b), "or": cv(a) | cv(b), "xor": cv(a) ^ cv(b)}[o], w)
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if cv(x) == 0:
                return x if o == "and" else y
            if cv(x) == M(w):
                return {"and": y, "or": x}.get(o) or raw("not", (y,), w)
    if a == b:
        return const(0, w) if o == "xor" else a
    return raw(o, (min(a, b), max(a, b)), w)


def mk(o, args, w, p=None):
    args = tuple(args)
    if all(isc(a) for a in args) and args:
        return const(evalop(o, [cv(a) for a in args], w, p, [W(a) for a in args]), w)
    if o in ("and", "or", "xor"):
        r = args[0]
        for a in args[1:]:
            r = bitop(o, r, a)
        return r
    if o == "ext":
        return ext(args[0], *p)
    if o == "cat":
        return cat(args)
    if o == "add":
        r = args[0]
        for a in args[1:]:
            if isc(r) and cv(r) == 0: r = a
            elif isc(a) and cv(a) == 0: pass
            else: r = raw("add", (min(r, a), max(r, a)), w)
        return r
    if o in ("shl", "lshr") and isc(args[1]):
        k = cv(args[1])
        if k >= w:
            return const(0, w)
        if k == 0:
            return args[0]
        if o == "shl":
            return cat([ext(args[0], w - 1 - k, 0), const(0, k)])
        return cat([const(0, k), ext(args[0], w - 1, k)])
    if o == "ite":
        if isc(args[0]):
            return args[1] if cv(args[0]) else args[2]
        if args[1] == args[2]:
            return args[1]
    if o == "eq":
        if args[0] == args[1]:
            return const(1, 0)
        args = (min(args), max(args))
    if o in ("band", "bor"):
        z = 0 if o == "band" else 1
        s = []
        for a in args:
            if isc(a):
                if cv(a) == z:
                    return const(z, 0)
                continue
            if a not in s:
                s.append(a)
        if not s:
            return const(1 - z, 0)
        if len(s) == 1:
            return s[0]
        return raw(o, tuple(sorted(s)), 0)
    if o == "bnot" and op(args[0]) == "bnot":
        return NODES[args[0]][1][0]
    if o == "not" and op(args[0]) == "not":
        return NODES[args[0]][1][0]
    return raw(o, args, w, p)


# ---------------------------------------------------------------- candidates
SIG = {}


def cone(n, depth):
    """Nodes within depth steps below n (slicing and joining is free), and
    the least number of steps each takes."""
    seen, work = {n: 0}, [n]
    while work:
        x = work.pop()
        k = seen[x]
        o, args = NODES[x][:2]
        k2 = k + (o not in ("cat", "ext"))
        if k2 > depth:
            continue
        for y in args:
            if seen.get(y, 10 ** 9) > k2:
                seen[y] = k2
                work.append(y)
    return seen


def toz3(n, inner, memo, cut):
    """n as a Z3 term, with everything outside inner a fresh variable."""
    o, args, w, p = NODES[n]
    if n in memo:
        return memo[n]
    if o == "const":
        return z3.BitVecVal(p, w) if w else z3.BoolVal(bool(p))
    if o == "var" or (inner is not None and n not in inner):
        if n not in cut:
            cut[n] = z3.BitVec("t%d" % n, w) if w else z3.Bool("t%d" % n)
        return cut[n]
    a = [toz3(x, inner, memo, cut) for x in args]
    if o == "add": r = a[0] + a[1]
    elif o == "mul": r = a[0] * a[1]
    elif o == "sub": r = a[0] - a[1]
    elif o == "and": r = a[0] & a[1]
    elif o == "or": r = a[0] | a[1]
    elif o == "xor": r = a[0] ^ a[1]
    elif o == "not": r = ~a[0]
    elif o == "neg": r = -a[0]
    elif o == "ext": r = z3.Extract(p[0], p[1], a[0])
    elif o == "cat": r = z3.Concat(*a)
    elif o == "shl": r = a[0] << a[1]
    elif o == "lshr": r = z3.LShR(a[0], a[1])
    elif o == "ashr": r = a[0] >> a[1]
    elif o == "udiv": r = z3.UDiv(a[0], a[1])
    elif o == "urem": r = z3.URem(a[0], a[1])
    elif o == "eq": r = a[0] == a[1]
    elif o == "ult": r = z3.ULT(a[0], a[1])
    elif o == "ule": r = z3.ULE(a[0], a[1])
    elif o == "slt": r = a[0] < a[1]
    elif o == "sle": r = a[0] <= a[1]
    elif o == "bnot": r = z3.Not(a[0])
    elif o == "band": r = z3.And(*a)
    elif o == "bor": r = z3.Or(*a)
    elif o == "bxor": r = z3.Xor(a[0], a[1])
    elif o == "ite": r = z3.If(*a)
    else: raise NotImplementedError(o)
    memo[n] = r
    return r


def query(f, ms):
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(f)
    t = time.time()
    r = s.check()
    stats["queries"] += 1
    stats["solver"] += time.time() - t
    return r


def equal(a, b):
    for depth, share, ms in ((4, 1, 1000), (10, 1, 2000), (5, 0, 2000), (24, 1, 4000), (10, 0, 5000), (20, 0, 8000)):
        if time.time() - T0 > LIMIT:
            return False
        ca, cb = cone(a, depth), cone(b, depth)
        if share:
            # Cut at what both have in common.
            inner = {x for x in ca if x not in cb and ca[x] < depth} | {x for x in cb if x not in ca and cb[x] < depth}
        else:
            inner = {x for c in (ca, cb) for x in c if c[x] < depth}
        inner |= {a, b}
        memo, cut = {}, {}
        x = toz3(a, inner, memo, cut)
        y = toz3(b, inner, memo, cut)
        if query(x != y, ms) == z3.unsat:
            return True
    return False


def show(n, d):
    o, args, w, p = NODES[n]
    if d == 0 or not args:
        return "%s%s" % (n, p if o == "const" else "")
    return "%d:%s%s(%s)" % (n, o, p or "", ", ".join(show(x, d - 1) for x in args))


def cand(n):
    o, args, w, p = NODES[n]
    if o in ("const", "var") or w < 8:
        return n
    s = (w, VALS[n])
    if len(set(VALS[n])) == 1:
        c = const(VALS[n][0], w)
        if equal(c, n):
            REP[n] = c
            stats["merges"] += 1
            return c
        return n
    if s in SIG:
        m = SIG[s]
        if m != n:
            if equal(m, n):
                REP[n] = m
                stats["merges"] += 1
                return m
            if "-v" in sys.argv: print("UNPROVED", show(m, 5), show(n, 5), flush=True)
            stats["unproved"] = stats.get("unproved", 0) + 1
        return n
    SIG[s] = n
    return n


# ---------------------------------------------------------------- formula
def main():
    text = open(sys.argv[1]).read()
    text = re.sub(r"\((get-value|check-sat|exit|set-info|set-option|get-info)[^\n]*", "", text)
    asserts = z3.parse_smt2_string(text)
    defs, sel, goals, names = {}, {}, [], {}

    def isvar(e):
        return z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED
    for f in asserts:
        if z3.is_eq(f):
            l, r = f.children()
            if isvar(l) and l.get_id() not in defs:
                defs[l.get_id()] = r
                names[str(l)] = r
                continue
            if isvar(r) and r.get_id() not in defs:
                defs[r.get_id()] = l
                continue
            if l.decl().kind() == z3.Z3_OP_SELECT and isvar(l.children()[0]) and z3.is_bv_value(l.children()[1]):
                sel[(l.children()[0].get_id(), l.children()[1].as_long())] = r
                continue
        goals.append(f)
    memo, varnames, arrs = {}, {}, {}
    K = z3
    OPS = {K.Z3_OP_BADD: "add", K.Z3_OP_BSUB: "sub", K.Z3_OP_BMUL: "mul", K.Z3_OP_BAND: "and", K.Z3_OP_BOR: "or",
        K.Z3_OP_BXOR: "xor", K.Z3_OP_BNOT: "not", K.Z3_OP_BNEG: "neg", K.Z3_OP_CONCAT: "cat", K.Z3_OP_BSHL: "shl",
        K.Z3_OP_BLSHR: "lshr", K.Z3_OP_BASHR: "ashr", K.Z3_OP_BUDIV: "udiv", K.Z3_OP_BUREM: "urem", K.Z3_OP_EQ: "eq",
        K.Z3_OP_ULT: "ult", K.Z3_OP_ULEQ: "ule", K.Z3_OP_SLT: "slt", K.Z3_OP_SLEQ: "sle", K.Z3_OP_NOT: "bnot",
        K.Z3_OP_AND: "band", K.Z3_OP_OR: "bor", K.Z3_OP_XOR: "bxor", K.Z3_OP_ITE: "ite"}

    def resolve_select(arr, idx):
        """arr[idx] as a Z3 term, for a constant index."""
        while True:
            k = arr.decl().kind()
            if (arr.get_id(), idx) in sel:
                return sel[(arr.get_id(), idx)]
            if k == z3.Z3_OP_STORE:
                a, i, v = arr.children()
                i = z3.simplify(i)
                if not z3.is_bv_value(i):
                    raise NotImplementedError("store at a symbolic index")
                if i.as_long() == idx:
                    return v
                arr = a
            elif isvar(arr) and arr.get_id() in defs:
                arr = defs[arr.get_id()]
            elif k == z3.Z3_OP_CONST_ARRAY:
                return arr.children()[0]
            elif isvar(arr):
                return None
            else:
                raise NotImplementedError("array " + str(arr.decl()))

    def local(e, ch):
        d = e.decl()
        k = d.kind()
        w = e.size() if z3.is_bv(e) else 0
        if z3.is_bv_value(e):
            return const(e.as_long(), w)
        if k == z3.Z3_OP_TRUE: return const(1, 0)
        if k == z3.Z3_OP_FALSE: return const(0, 0)
        if k == z3.Z3_OP_EXTRACT: return mk("ext", ch, w, tuple(d.params()))
        if k == z3.Z3_OP_UGT: return mk("ult", ch[::-1], 0)
        if k == z3.Z3_OP_UGEQ: return mk("ule", ch[::-1], 0)
        if k == z3.Z3_OP_SGT: return mk("slt", ch[::-1], 0)
        if k == z3.Z3_OP_SGEQ: return mk("sle", ch[::-1], 0)
        if k == z3.Z3_OP_IMPLIES: return mk("bor", (mk("bnot", (ch[0],), 0), ch[1]), 0)
        if k == z3.Z3_OP_DISTINCT and len(ch) == 2: return mk("bnot", (mk("eq", ch, 0),), 0)
        if k == z3.Z3_OP_ZERO_EXT: return cat([const(0, w - W(ch[0])), ch[0]]) if w > W(ch[0]) else ch[0]
        if k == z3.Z3_OP_SIGN_EXT:
            x = W(ch[0])
            s = ext(ch[0], x - 1, x - 1)
            if isc(s): return cat([const(-cv(s), w - x), ch[0]])
            return cat([s] * (w - x) + [ch[0]])
        if k == z3.Z3_OP_ROTATE_LEFT:
            r = d.params()[0] % w
            return cat([ext(ch[0], w - 1 - r, 0), ext(ch[0], w - 1, w - r)]) if r else ch[0]
        if k == z3.Z3_OP_ROTATE_RIGHT:
            r = d.params()[0] % w
            return cat([ext(ch[0], r - 1, 0), ext(ch[0], w - 1, r)]) if r else ch[0]
        if k in OPS:
            o = OPS[k]
            if o in ("sub", "mul") and len(ch) > 2:
                r = ch[0]
                for c in ch[1:]:
                    r = mk(o, (r, c), w)
                return r
            return mk(o, ch, w)
        raise NotImplementedError(str(d))

    def conv(root):
        stack = [root]
        while stack:
            e = stack[-1]
            i = e.get_id()
            if i in memo:
                stack.pop()
                continue
            if isvar(e):
                if i in defs:
                    d = defs[i]
                    if d.get_id() in memo:
                        memo[i] = memo[d.get_id()]
                        stack.pop()
                    else:
                        stack.append(d)
                    continue
                if not (z3.is_bv(e) or z3.is_bool(e)):
                    raise NotImplementedError("sort of " + str(e))
                n = str(e)
                memo[i] = var(n, e.size() if z3.is_bv(e) else 0)
                varnames[n] = memo[i]
                stack.pop()
                continue
            if e.decl().kind() == z3.Z3_OP_SELECT:
                a, ix = e.children()
                if ix.get_id() not in memo:
                    stack.append(ix)
                    continue
                if not isc(memo[ix.get_id()]):
                    raise NotImplementedError("symbolic index")
                idx = cv(memo[ix.get_id()])
                t = resolve_select(a, idx)
                if t is None:
                    memo[i] = var("%s[%d]" % (a, idx), e.size() if z3.is_bv(e) else 0)
                    stack.pop()
                elif t.get_id() in memo:
                    memo[i] = memo[t.get_id()]
                    stack.pop()
                else:
                    stack.append(t)
                continue
            todo = [c for c in e.children() if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[i] = local(e, [memo[c.get_id()] for c in e.children()])
            stack.pop()
        return memo[root.get_id()]

    res = dict(status="undecided", note="")
    try:
        goal = const(1, 0)
        for g in goals:
            goal = mk("band", (goal, conv(g)), 0)
        stats["nodes"] = len(NODES)
        if isc(goal) and cv(goal) == 0:
            res["status"] = "ok"
        else:
            hits = [i for i in range(NV) if VALS[goal][i]]
            ins = []
            for n, e in names.items():
                m = re.search(r"vp_in!0@(\d+)#2$", n)
                if m and e.get_id() in memo and op(memo[e.get_id()]) == "var":
                    ins.append((int(m.group(1)), memo[e.get_id()]))
            if hits and not isc(goal):
                # Confirm on the original formula.
                s = z3.Solver()
                s.set("timeout", 20000)
                s.add(asserts)
                for n, v in varnames.items():
                    if "[" not in n:
                        s.add((z3.BitVec(n, W(v)) if W(v) else z3.Bool(n)) == (VALS[v][hits[0]] if W(v) else bool(VALS[v][hits[0]])))
                stats["queries"] += 1
                res["confirmed"] = str(s.check())
            if hits:
                res["status"] = "violation"
                res["inputs"] = {str(k): VALS[v][hits[0]] for k, v in ins}
            else:
                memo2, cut = {}, {}
                f = toz3(goal, None, memo2, cut)
                s = z3.Solver()
                s.set("timeout", int(max(1, LIMIT - (time.time() - T0)) * 1000))
                s.add(f)
                t = time.time()
                r = s.check()
                stats["queries"] += 1
                stats["solver"] += time.time() - t
                if r == z3.unsat:
                    res["status"] = "ok"
                elif r == z3.sat:
                    m = s.model()
                    res["status"] = "violation"
                    res["inputs"] = {str(k): (m.eval(cut[v], True).as_long() if v in cut else 0) for k, v in ins}
                else:
                    res["note"] = "Z3 gives up on the remaining goal"
    except NotImplementedError as e:
        res["note"] = "not encodable: %s" % e
    res["stats"] = stats
    res["wall"] = time.time() - T0
    json.dump(res, open(sys.argv[2], "w"))
    print(json.dumps({k: v for k, v in res.items() if k != "inputs"}))


sys.setrecursionlimit(100000)
main()
