"""Runs of the specification on its own: theorems about its operators, and histories it generates."""
import functools, json, os, random, struct, subprocess
import walks
from run import Broken, Scenario, OPNAME, cv, dbl
from build import VERIF, OPS, TYPES, COVERED

SPEC = os.path.join(VERIF, "spec")
ALLT = "adSound1 adSound2 adSound3 orders padding permuting identities".split()
WHICH = {
    "C01": ["adSound1", "adSound2"], "C02": ["adSound1", "adSound2"], "C03": ["adSound1", "identities"], "C04": ["adSound2", "adSound3", "identities"],
    "C05": ALLT, "C09": ["orders", "permuting"], "C10": ["padding"], "C11": ["adSound2"], "C12": ["orders", "identities"],
    "C15": ["adSound2"], "C16": ["adSound1", "adSound2", "adSound3"], "C17": ["identities"],
}


def quint(args, timeout=700):
    r = subprocess.run(["quint"] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, cwd=SPEC)
    return r.returncode, r.stdout


def random_theorems(pid, deep, seed, work):
    invs = WHICH.get(pid)
    if not invs:
        return []
    out = []
    for k in range(4 if deep else 1):
        itf = os.path.join(work, "theorems%d.itf.json" % k)
        steps = 600 if deep else 40
        rc, so = quint(["run", "theorems.qnt", "--main=theorems", "--max-steps=%d" % steps, "--max-samples=1", "--verbosity=1",
                        "--seed=%d" % (seed * 16 + k), "--out-itf=" + itf, "--invariants"] + invs)
        if rc or "No violation" not in so:
            raise Broken("a theorem of the specification fails: " + so[-600:])
        n = len(json.load(open(itf))["states"])
        os.remove(itf)
        out.append({"module": "theorems", "invariants": invs, "states": n, "transitions": n - 1})
    return out


def layout(pid, deep, seed, work):
    if pid not in ("C06", "C07", "C08", "C10"):
        return []
    rc, so = quint(["test", "theorems.qnt", "--main=theorems", "--max-samples=1", "--match=layoutTest"])
    if rc or "1 passing" not in so:
        raise Broken("the layout theorem fails: " + so[-600:])
    return [{"module": "theorems", "invariants": ["layoutOk for sizes 0..20"], "states": 21, "transitions": 0}]


def run_all(pid, deep, seed, work):
    return random_theorems(pid, deep, seed, work) + layout(pid, deep, seed, work)


# ---- histories generated by the specification (spec/histories.qnt)
# property: (init, step)
PROFILE = {
    "C01": ("initAll", "stepArith"), "C02": ("initAll", "stepInplace"), "C03": ("initAll", "stepFunctions"), "C04": ("initAll", "stepMulti"),
    "C05": ("initProgram", "stepProgram"), "C06": ("initDense", "stepViews"), "C07": ("initAll", "stepAll"), "C08": ("initDense", "stepReject"),
    "C09": ("initProgram", "stepProgram"), "C10": ("initDense", "stepPad"), "C11": ("initAll", "stepViews"), "C12": ("initSparse", "stepSparse"),
    "C13": ("initAll", "stepAll"), "C14": ("initAll", "stepAll"), "C15": ("initAll", "stepArrays"), "C16": ("initAll", "stepAll"), "C17": ("initPlain", "stepPlain"),
}
# property: walks of the finite protocols: which, driver, types, share of the steps in a quick run
DYN, FIX, SPARSE = [(0, 0, 2, -1), (0, 0, 1, -1)], [(0, 0, 2, 2), (0, 0, 1, 3), (0, 0, 2, 1), (0, 0, 1, 1), (0, 0, 2, 7)], [(1, 0, 1, -1)]
CDYN, CFIX, CSPARSE = ["DDx", "Dx", "DDfx", "DDlx"], ["DD2", "D3", "DD1", "Df3"], ["S", "Sf", "Sl"]
WALK = {"names": walks.named, "sharing": walks.shared, "successions": functools.partial(walks.shared, pairs=True)}
WALKS = {
    "C14": [("sharing", "py", DYN, 1), ("sharing", "py", FIX, 1), ("sharing", "py", SPARSE, 1), ("sharing", "base", CDYN, 1), ("sharing", "base", CFIX, 1), ("sharing", "base", CSPARSE, 1)],
    "C02": [("sharing", "py", DYN, .12), ("sharing", "py", SPARSE, .3), ("sharing", "base", CDYN, .2), ("names", "base", ["S"], .2)],
    "C05": [("successions", "base", ["DD2", "DD1"], .3), ("successions", "base", ["S"], .15)],
    "C06": [("sharing", "py", DYN, .12), ("sharing", "py", FIX, .2)],
    "C08": [("sharing", "py", DYN, .12), ("sharing", "base", CDYN, .2)],
    "C12": [("names", "base", CSPARSE, 1), ("names", "py", SPARSE, 1), ("sharing", "py", SPARSE, .5)],
}
HINV = "wellFormed referred framed composed".split()
CPPNAME = {t[1]: n for n, t in TYPES.items()}
LAYOUT = {"OP_ZERO", "OP_EMPTY", "OP_CONST", "OP_VAR", "OP_VARS", "OP_DATA", "OP_GRAD", "OP_ARRS", "OP_DEFAULT"}
SCALAR = {"OP_SCONST", "OP_SVAR", "OP_SDATA"}
# operations whose second item is the register they bind
BINDS = {"OP_COPY", "OP_PADL", "OP_PADR", "OP_HYPOT3", "OP_ATAN2", "OP_HYPOT"}


def behaviour(init, step, k, steps, seed, work):
    """One behaviour of the specification: list of (configuration, calls with: must it be refused)."""
    itf = os.path.join(work, "histories-%s-%d.itf.json" % (step, k))
    rc, so = quint(["run", "histories.qnt", "--main=histories", "--init=" + init, "--step=" + step, "--max-steps=%d" % steps, "--max-samples=1",
                    "--verbosity=1", "--seed=%d" % (seed * 64 + k + 1), "--out-itf=" + itf, "--invariants"] + HINV)
    if rc or "No violation" not in so:
        raise Broken("an invariant of the specification fails: " + so[-600:])
    states = json.load(open(itf))["states"]
    os.remove(itf)
    out = []
    for s in states:
        c, g = cv(s["call"]), cv(s["cfg"])
        name = OPNAME.get(c["op"])
        if name == "OP_RESET":
            out.append((g, []))
        elif name:
            out[-1][1].append((name, c["I"], [dbl(w) for w in c["D"]], s["refused"]))
    return [(g, c) for g, c in out if c], len(states)


def single(x):
    """A single precision program takes single precision constants."""
    return struct.unpack("f", struct.pack("f", x))[0] if not 1e30 < abs(x) < float("inf") else 1.5


def own_type(g):
    return tuple(g["ty"][x] for x in ("k", "sc", "o", "sn"))


def replay(g, calls, driver, sub, tag):
    """The calls of one history for a driver, with the number type replaced by sub where it is the history's own type.
    Spellings are a matter of presentation: each driver has its own."""
    py, noeigen, noexc = driver == "py", driver == "noeigen", driver.startswith("noexc")
    own = own_type(g)
    s = Scenario(driver, "-" if py else CPPNAME[sub], g["lanes"], tag)
    sparse = sub[0] == 1 and own[0] == 0
    live = set()

    def emit(name, I, D):
        if not py:
            # the C++ driver: 10 more means assignment to an existing number
            if name in LAYOUT or name in SCALAR:
                I[0] = 0
                live.add(I[1])
            elif name in BINDS or 60 <= OPS[name] <= 73 or 100 <= OPS[name] <= 132:
                I[0] = I[0] % 5 if name == "OP_COPY" else I[0] % 2 + (10 if I[1] in live and I[0] >= 30 else 0)
                live.add(I[1])
            elif 80 <= OPS[name] <= 91 or 40 <= OPS[name] <= 47 or name == "OP_TEXT":
                I[0] = I[0] % 2
            elif 140 <= OPS[name] <= 151:
                I[0] = I[0] % 3
        elif name == "OP_DATA":
            I[0] = 0 if len(D) == 1 else I[0] % 10
        elif name in ("OP_GRAD", "OP_ARRS"):
            I[0] %= 10
        if name == "OP_FORGET":
            live.discard(I[0])
        s.op(name, I, D)

    for name, I, D, refused in calls:
        I = list(I)
        if sub[1] == 1:
            D = [single(x) for x in D]
        if refused and noexc or name == "OP_TEXT" and sub[1] == 2:
            continue
        if py and name in ("OP_SETH", "OP_SETZERO"):
            continue
        if noeigen:
            if name in ("OP_ARRS", "OP_GRAD") or 140 <= OPS[name] <= 151:
                break
            if name in ("OP_EVAL", "OP_HM", "OP_SETHM"):
                continue
        if name in LAYOUT and tuple(I[3:7]) == own:
            if sparse:
                # the same program on sparse numbers; variable k is the one named k
                if name == "OP_VARS":
                    for k, x in enumerate(D):
                        emit("OP_SVAR", [0, I[1] + k, sub[1], k], [x])
                elif name == "OP_VAR":
                    emit("OP_SVAR", [I[0], I[1], sub[1], I[7]], D)
                elif name in ("OP_CONST", "OP_ZERO"):
                    emit("OP_SCONST", [I[0], I[1], sub[1]], D or [0.0])
                else:
                    return None
                continue
            I[3:7] = sub
            if sub[3] != own[3]:
                if name in ("OP_VAR", "OP_CONST", "OP_ZERO"):
                    I[2] = g["n"]
                elif name != "OP_VARS":
                    return None
        if name in SCALAR and own[0] == 1:
            I[2] = sub[1]
        if name == "OP_COPY" and py and sub[0] == 1:
            name, D = "OP_ADDC", [0.0]                # sparse numbers have no copy in Python
        if name == "OP_EVAL":
            I[0] = I[0] % 10 if py else 0
        if name == "OP_SETALL":
            I[0] %= 2
        if name == "OP_VIEWS" and noeigen:
            I[0] &= ~48
        emit(name, I, D)
    return s


def targets(pid, g):
    """Where a history is replayed: (driver, number type)."""
    own = own_type(g)
    k, sc, o, sn = own
    if pid == "C09" and k == 0:
        n = g["n"]
        reps = [(0, 0, p, m) for p in (1, 2) for m in (n, -1)]
        return [("py", r) for r in reps] + [("py", (1, 0, 1, -1))] + ([] if g["py"] else [("base", r) for r in reps + [(1, 0, 1, -1)]])
    if pid == "C17":
        out = []
        if not g["py"]:
            for v, types in COVERED.items():
                for name in types:
                    t = TYPES[name][1]
                    if (t[0], t[2], t[3]) == (k, o, sn) and (v != "base" or t[1] > 0):
                        out.append((v, t))
        return out
    return [("py", own)] + ([("base", own)] if not g["py"] and own in CPPNAME else [])


def generated(pid, deep, seed, work):
    if pid not in PROFILE:
        return [], []
    runs, steps = (8, 2500) if deep else (1, 300 if pid == "C09" else 700 if pid == "C17" else 900)
    init, step = PROFILE[pid]
    scens, stats = [], []
    for k in range(runs):
        hist, n = behaviour(init, step, k, steps, seed, work)
        stats.append({"module": "histories", "step": step, "invariants": HINV, "states": n, "transitions": n - 1, "histories": len(hist)})
        for g, calls in hist:
            for d, sub in targets(pid, g):
                s = replay(g, calls, d, sub, "%s specification's history %s n=%d" % (d, sub, g["n"]))
                if s:
                    scens.append(s)
    rng = random.Random("walks/%s/%d" % (pid, seed))
    for kind, driver, types, share in WALKS.get(pid, []):
        own, st = WALK[kind](rng, work, driver, types, 1.0 if deep else share)
        scens += own
        stats.append(st)
    return scens, stats
