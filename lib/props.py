"""Which histories each property explores."""
import random
import gen
from gen import H, hs
from build import TYPES, COVERED

CPPD = ["DD0", "DD1", "DD2", "DD3", "DD4", "DD6", "DDx", "D0", "D1", "D2", "D3", "D6", "Dx"]      # double
CPPB = ["DD16", "D16"]
CPPF = ["DDf2", "DDfx", "Df3", "Dfx"]
CPPL = ["DDl2", "DDlx", "Dl3", "Dlx"]
PYD = [(0, 0, o, n) for o in (1, 2) for n in (0, 1, 2, 3, 5, -1)]
PYALL = [(0, 0, o, n) for o in (1, 2) for n in list(range(17)) + [-1]]
PYS = (1, 0, 1, -1)
SP = ["S", "Sf", "Sl"]


def sizes(deep):
    return (0, 1, 2, 3, 5, 7, 17) if deep else (0, 1, 3, 4)


def sweep(f, driver, types, rng, szs=(3,), **kw):
    out = []
    for t in types:
        for h in hs(rng, driver, t, szs):
            f(h, **kw)
            out.append(h.result)
    return out


def small(types):
    return [t for t in types if (TYPES[t][1] if isinstance(t, str) else t)[3] <= 6]


def ladder(rng, deep, kind):
    """Every size up to the largest fixed one and beyond, fixed (Python) and dynamic (C++); a few large ones."""
    out = []
    for o in (1, 2):
        for n in range(5, 33 if deep else 19 if o == 2 else 26):
            if n <= 16:
                out += sweep(gen.ladder, "py", [(0, 0, o, n)], rng, kind=kind)
            out += sweep(gen.ladder, "base", ["DDx" if o == 2 else "Dx"], rng, (n,), kind=kind)
    for _ in range(3 if deep else 1):
        out += sweep(gen.ladder, "base", ["Dx"], rng, (rng.choice([32, 33, 40, 64, 65, 100, 128, 129, 200]),), kind=kind)
        out += sweep(gen.ladder, "base", ["DDx"], rng, (rng.choice([24, 31, 32, 33, 36]),), kind=kind)
    return out


def C01(rng, deep):
    r = 8 if deep else 1
    out = []
    for _ in range(r):
        out += sweep(gen.arith, "base", CPPD + CPPF + CPPL, rng, sizes(deep), rounds=2)
        out += sweep(gen.arith, "base", CPPB, rng, (16,), rounds=1)
        out += sweep(gen.arith, "py", PYALL if deep else PYD + [(0, 0, 1, rng.randint(6, 16)), (0, 0, 2, rng.randint(6, 16))], rng, sizes(deep), rounds=2 if deep else 1)
        # sizes at which loops may be split
        out += sweep(gen.arith, "base", ["DDx", "Dx"], rng, (8, 9) if not deep else (6, 8, 9, 15, 16, 20), rounds=1)
    out += ladder(rng, deep, "arith")
    return out


def C02(rng, deep):
    out = []
    for _ in range(8 if deep else 1):
        out += sweep(gen.inplace, "base", CPPD + CPPF + CPPL + SP, rng, sizes(deep), rounds=2)
        out += sweep(gen.inplace, "base", CPPB, rng, (16,), rounds=1)
        out += sweep(gen.inplace, "py", (PYALL if deep else PYD + [(0, 0, 1, rng.randint(6, 16)), (0, 0, 2, rng.randint(6, 16))]) + [PYS], rng, sizes(deep), rounds=2 if deep else 1)
    out += ladder(rng, deep, "inplace")
    return out


def C03(rng, deep):
    out = []
    for _ in range(6 if deep else 1):
        out += sweep(gen.functions, "base", ["DD2", "D2", "DDx", "Dx"], rng, (2,))
        out += sweep(gen.functions, "base", [t for t in CPPD + CPPF + CPPL if t not in ("DD2", "D2")], rng, (0, 1, 3), per=2)
        out += sweep(gen.functions, "base", CPPB, rng, (16,), per=1)
        out += sweep(gen.functions, "py", PYALL if deep else [(0, 0, o, n) for o in (1, 2) for n in (0, 1, 3, rng.randint(4, 9), -1)], rng, (1, 3), per=2)
        out += sweep(gen.rand_functions, "base", ["DD1", "DD3", "D3", "DDx", "DDf2", "DDl2"], rng, (1, 4), count=25)
    out += ladder(rng, deep, "functions")
    return out


def C04(rng, deep):
    out = []
    for _ in range(6 if deep else 1):
        out += sweep(gen.multi, "base", ["DD2", "D2", "DDx", "Dx"], rng, (2,))
        out += sweep(gen.multi, "base", [t for t in CPPD + CPPF + CPPL if t not in ("DD2", "D2")], rng, (0, 1, 3), per=7)
        out += sweep(gen.multi, "base", CPPB, rng, (16,), per=3)
        out += sweep(gen.multi, "py", PYALL if deep else PYD + [(0, 0, 1, 9), (0, 0, 2, 8)], rng, (1, 3), per=9)
        out += sweep(gen.multi, "py", [(0, 0, 2, 2)], rng)
        for t in ((0, 0, 2, 2), (0, 0, 1, 3), (0, 0, 2, -1)):
            h = H(rng, "py", t, 2)
            zip_quadrants(h)
            out.append(h.result)
    out += ladder(rng, deep, "multi")
    return out


def zip_quadrants(h):
    """The two-argument functions through the array library."""
    from build import OPS
    for op in ("OP_ATAN2", "OP_HYPOT"):
        for k in range(0, len(gen.QUAD), 3):
            q = gen.QUAD[k:k + 3]
            for i, (x, y) in enumerate(q):
                h.make(i, f=x)
                h.make(8 + i, f=y)
            n = len(q)
            h.op("OP_AZIP", [1, OPS[op], n] + [30 + i for i in range(n)] + list(range(n)) + [8 + i for i in range(n)])
            gen.drop(h, n)


def programs(rng, driver, types, count, steps, szs=(2,)):
    out = []
    for t in types:
        ty = TYPES[t][1] if isinstance(t, str) else t
        for _ in range(count):
            n = ty[3] if ty[0] == 0 and ty[3] >= 0 else rng.choice(szs)
            h = H(rng, driver, t, n, lanes=n, tag="program %s %s n=%d" % (driver, t, n))
            vals = [h.round(rng.choice([-1, 1]) * rng.uniform(.4, 2)) for _ in range(n)]
            gen.program(h, steps, vals)
            out.append(h.result)
    return out


def C05(rng, deep):
    k = 12 if deep else 1
    st = 30 if deep else 22
    mem = sweep(gen.memory, "base", ["DD1", "D2", "Dx", "S"] + (["DD3", "DDx", "D1", "DDf2", "DDl2", "Sf"] if deep else []), rng, (2,), rounds=4 if deep else 1) + \
        sweep(gen.memory, "py", [(0, 0, 2, 1), (0, 0, 1, -1), PYS], rng, (1,), rounds=4 if deep else 1)
    # while other threads use the library
    for f, kw in ((gen.arith, {"rounds": 1}), (gen.functions, {"per": 1}), (gen.multi, {"per": 4}), (gen.inplace, {"rounds": 1}), (gen.copies, {})):
        mem += sweep(f, "threads", ["DD2", "DDx", "Dx", "S"] if deep else rng.sample(["DD2", "DDx", "D2", "Dx", "S"], 3), rng, (2,), **kw)
    return mem + programs(rng, "threads", ["DD2", "DDx", "Dx", "S"], 2 * k, st) + programs(rng, "base", ["DD1", "DD2", "D2", "D3", "DDx", "Dx", "S", "DDl2", "Sl"], 5 * k, st) + \
        programs(rng, "base", ["DD3", "DDx"], 2 * k, 14, (3,)) + \
        programs(rng, "base", ["DDf2", "Df3", "Sf"], 3 * k, 10) + \
        programs(rng, "py", [(0, 0, 2, 1), (0, 0, 2, 2), (0, 0, 1, 2), (0, 0, 1, 4), (0, 0, 2, -1), (0, 0, 1, -1), PYS], 5 * k, st) + \
        programs(rng, "py", [(0, 0, 2, 3)], 2 * k, 14)


def C06(rng, deep):
    out = []
    for _ in range(10 if deep else 1):
        out += sweep(gen.views, "base", CPPD + CPPF + CPPL + CPPB, rng, sizes(deep))
        out += sweep(gen.views, "py", PYALL, rng, sizes(deep), rounds=1)
    return out


def C07(rng, deep):
    out = []
    for _ in range(6 if deep else 1):
        out += sweep(gen.constructors, "base", CPPD + CPPF + CPPL + CPPB, rng, (0, 1, 2, 3, 7) + ((11, 16, 20) if deep else ()))
        out += sweep(gen.constructors, "py", PYALL, rng, (0, 1, 2, 3, 7, 17))
        out += sweep(gen.sparse_constructors, "base", SP, rng)
        out += sweep(gen.sparse_constructors, "py", [PYS], rng)
        for order in (0, 1, 2):
            h = H(rng, "py", (0, 0, 2, -1), 2)
            for n in range(0, 21):
                for s in (rng.randrange(10), rng.randrange(10)):
                    h.op("OP_MODVARS", [s, 1, order], [h.val() for _ in range(n)])
                    if order:
                        for k in range(n):
                            h.op("OP_FORGET", [1 + k])
            out.append(h.result)
    return out


def C08(rng, deep):
    out = []
    for _ in range(5 if deep else 1):
        out += sweep(gen.rejects, "base", small(CPPD + CPPF + CPPL) + CPPB[:1], rng, (0, 1, 2, 3, 4))
        out += sweep(gen.rejects, "py", PYALL if deep else [(0, 0, o, n) for o in (1, 2) for n in (0, 1, 2, 3, 4, rng.randint(5, 8), rng.randint(9, 16), -1)], rng, (0, 1, 2, 3, 4))
        h = H(rng, "py", (0, 0, 2, -1), 2)
        h.make(0)
        for order in (-1, 3, 7, -100, 4):
            for n in (0, 1, 3):
                h.op("OP_MODVARS", [rng.randrange(5) * 2, 5, order], [h.val() for _ in range(n)])
        out.append(h.result)
    return out


REPS = [(0, 0, 1, None), (0, 0, 2, None), (0, 0, 1, -1), (0, 0, 2, -1), (1, 0, 1, -1)]


def C09(rng, deep):
    """The same program in every representation and under a permutation of the variables."""
    out = []
    for _ in range(60 if deep else 8):
        n = rng.choice([1, 2, 2, 3, 4])
        vals = [rng.choice([-1, 1]) * rng.uniform(.4, 2) for _ in range(n)]
        perm = list(range(n))
        rng.shuffle(perm)
        seed = rng.random()
        steps = 14 if n < 4 else 10
        for p in (None, perm):
            ts = [("py", (k, s, o, n if sn is None else sn)) for k, s, o, sn in REPS]
            ts += [("base", t) for t in ("DDx", "Dx", "S") + (("DD%d" % n, "D%d" % n) if n in (1, 2, 3) else ())]
            for d, t in ts:
                h = H(random.Random(seed), d, t, n, lanes=n, tag="representation program")
                gen.program(h, steps, vals, p)
                out.append(h.result)
    # the representations side by side on arbitrary contents
    for t in ["DD2", "D2", "S"]:
        out += sweep(gen.arith, "base", [t], rng, rounds=1)
        out += sweep(gen.functions, "base", [t], rng, per=2)
    for n in (0, 2, 3):
        out += sweep(gen.arith, "base", ["DDx", "Dx"], rng, (n,), rounds=1)
        out += sweep(gen.functions, "base", ["DDx", "Dx"], rng, (n,), per=2 if n == 2 else 1)
        out += sweep(gen.multi, "base", ["DDx", "Dx"], rng, (n,), per=6)
    out += sweep(gen.multi, "base", ["DD2", "D2", "S"], rng, per=6)
    out += sweep(gen.inplace, "base", ["DD2", "D2", "DDx", "Dx", "S"], rng, rounds=1)
    return out


def C10(rng, deep):
    out = []
    for _ in range(6 if deep else 1):
        out += sweep(gen.padding, "base", ["DDx", "Dx", "DDfx", "Dfx", "DDlx", "Dlx"], rng, (0, 1, 2, 3, 4), rounds=1)
        out += sweep(gen.padding, "py", [(0, 0, 1, -1), (0, 0, 2, -1)], rng, (0, 1, 2, 3, 5), rounds=1)
        out += sweep(gen.padding, "base", ["DDx", "Dx"], rng, (9, 14), rounds=1)
        for n in range(0, 13 if deep else 8):
            out += sweep(gen.padding_pairs, "base", ["DDx", "Dx"], rng, (n,), sizes=[n])
            out += sweep(gen.padding_pairs, "py", [(0, 0, 2 - (n + rng.randrange(2)) % 2, -1)], rng, (n,), sizes=[n])
    return out


def C11(rng, deep):
    out = []
    for _ in range(10 if deep else 1):
        out += sweep(gen.evaluation, "base", CPPD + CPPF + CPPL + CPPB, rng, (0, 1, 2, 3, 7), rounds=4)
        out += sweep(gen.evaluation, "py", PYALL, rng, (0, 1, 2, 3, 7), rounds=3)
        out += sweep(gen.evaluation, "base", SP, rng, rounds=20)
        out += sweep(gen.evaluation, "py", [PYS], rng, rounds=20)
    out += ladder(rng, deep, "eval")
    return out


def C12(rng, deep):
    out = []
    for _ in range(10 if deep else 2):
        for d, ts in (("base", ["S"]), ("py", [PYS])):
            for f, kw in ((gen.arith, {"rounds": 4}), (gen.functions, {}), (gen.multi, {}), (gen.rand_functions, {"count": 30}), (gen.inplace, {"rounds": 3}), (gen.sparse_constructors, {}), (gen.evaluation, {"rounds": 6})):
                out += sweep(f, d, ts, rng, **kw)
    for f, kw in ((gen.arith, {}), (gen.functions, {"per": 2}), (gen.multi, {"per": 8}), (gen.inplace, {})):
        out += sweep(f, "base", ["Sf", "Sl"], rng, **kw)
    out += programs(rng, "base", ["S"], 20 if deep else 5, 22) + programs(rng, "py", [PYS], 20 if deep else 5, 22)
    return out


def C13(rng, deep):
    out = []
    for _ in range(6 if deep else 1):
        out += sweep(gen.comparisons, "base", CPPD[:5] + ["DDx", "D2", "Dx", "D0"] + CPPF + CPPL + SP, rng, (0, 1, 3))
        out += sweep(gen.comparisons, "py", PYD + [PYS], rng, (0, 2))
        out += sweep(gen.texts, "base", ["DD2", "D3", "DDx", "Dx", "DD0", "S", "DDf2", "Df3", "Sf"], rng, (0, 2))
        out += sweep(gen.texts, "py", PYALL[::3] + [PYS], rng, (2,))
    return out


def C14(rng, deep):
    out = []
    for _ in range(6 if deep else 1):
        out += sweep(gen.copies, "base", ["DD0", "DD1", "DD3", "D0", "D2", "DDx", "Dx", "S", "DDf2", "DDlx", "Sf"], rng, (0, 1, 3))
        out += sweep(gen.copies, "py", PYALL, rng, (0, 1, 3))
        out += sweep(gen.allops_untouched, "base", ["DD2", "D3", "DDx", "Dx", "S"], rng, (2,))
        out += sweep(gen.allops_untouched, "py", [(0, 0, 2, 2), (0, 0, 1, 3), (0, 0, 2, -1), (0, 0, 1, -1), PYS], rng, (2,))
    return out


def C15(rng, deep):
    out = []
    for _ in range(6 if deep else 1):
        out += sweep(gen.arrays, "base", ["DD1", "DD2", "DD3", "D2", "D3", "DDx", "Dx", "DDf2", "DDl2"], rng, (2,))
        out += sweep(gen.arrays, "py", PYD + [(0, 0, 2, 8), (0, 0, 1, 16)] + [PYS], rng, (0, 2))
    return out


def C16(rng, deep):
    out = []
    ts = PYALL + [PYS]
    for _ in range(4 if deep else 1):
        for t in ts:
            big = t[3] > 4
            # every spelling of every name
            for h in hs(rng, "py", t, (0, 2)):
                spellings(h, light=not deep and (big or h.n == 0))
                out.append(h.result)
            if t[0] == 0:
                out += sweep(gen.constructors, "py", [t], rng, (2,))
                out += sweep(gen.views, "py", [t], rng, (2,), rounds=1)
        out += sweep(gen.sparse_constructors, "py", [PYS], rng)
    return out


def spellings(h, light=False):
    r = h.rng
    h.make(0, f=0.6, density=1.0)
    h.make(1, f=-0.7, density=1.0)
    h.make(4, f=1.7, density=1.0)
    names = "ABS NEG SQRT CBRT RECIP COS SIN TAN ACOS ASIN ATAN COSH SINH TANH ACOSH ASINH ATANH EXP LOG LOG2 LOG10".split()
    n1 = {"ABS": 5, "NEG": 3, "ACOS": 3, "ASIN": 3, "ATAN": 3, "ACOSH": 3, "ASINH": 3, "ATANH": 3}
    for x in names:
        op = "OP_" + x
        ss = range(n1.get(x, 2))
        for s in (ss if not light else ([0] + r.sample(list(ss)[1:], 1) if h.n <= 10 else r.sample(list(ss), 1) if x not in n1 else ss)):
            h.op(op, [s, 2, 4 if x == "ACOSH" else 1 if x in ("ABS", "CBRT", "TAN") else 0])
    for op, k in [(x, 3) for x in gen.ARITH2] + [("OP_ATAN2", 4), ("OP_HYPOT", 4)]:
        for s in (range(k) if not light else r.sample(range(k), 2)):
            h.op(op, [s, 2, 0, 1])
    for op, k in (("OP_ADDC", 3), ("OP_SUBC", 3), ("OP_MULC", 3), ("OP_DIVC", 3), ("OP_CADD", 2), ("OP_CSUB", 2), ("OP_CMUL", 2), ("OP_CDIV", 2), ("OP_POW", 4), ("OP_LOGB", 2)):
        for s in range(k):
            for t in ((0, 1, 2) if not light else (0, 1) if s == 0 else (r.randrange(3),)):
                h.op(op, [s + 10 * t, 2, 0, ], [2.0 if t == 1 else 2.5])
    for s in range(3):
        h.op("OP_HYPOT3", [s, 2, 0, 1, 4])
    h.live.add(2)
    for op in gen.INPL:
        h.inpl(op, 2, 4)
    for op in gen.INPLC:
        for t in (0, 1, 2):
            h.op(op, [10 * t, 2], [2.0])
    for s in range(3):
        h.op("OP_TEXT", [s, 0])
        h.op("OP_CMPC", [s, 0], [1.0])
    h.op("OP_CMP", [0, 0, 1])
    if h.k == 0:
        h.op("OP_INFO", [15, 0])
        h.op("OP_VIEWS", [1 | 2 | 64 | (8 | 16 | 32 if h.o == 2 else 0), 0])
        for s in (0, 1, 5, 6):
            h.op("OP_EVAL", [s, 0], [h.val() for _ in range(h.n)])
        for s in range(7):
            h.op("OP_COPY", [s, 2, 0])
        if h.dyn:
            for s in (0, 1):
                h.op("OP_PADL", [s, 2, 0, h.n + 1])
                h.op("OP_PADR", [s, 2, 0, h.n + 2])
            h.op("OP_RESIZE", [0, 2, 1])
            h.op("OP_INFO", [15, 2])
    else:
        h.op("OP_SGET", [0, 0])
        h.op("OP_EVAL", [0, 0, 0, 1, 9], [1.0, 2.0, 3.0])


def C17(rng, deep):
    out = []
    for v, types in COVERED.items():
        dense = [t for t in types if t[0] == "D"]
        r = random.Random(rng.random())

        def some(ts, k=1):
            return ts if deep else r.sample(ts, min(k, len(ts)))
        for _ in range(4 if deep else 1):
            out += sweep(gen.arith, v, types, r, (2,), rounds=1)
            out += sweep(gen.functions, v, types, r, (2,), per=3 if deep else 1)
            out += sweep(gen.multi, v, types, r, (2,), per=6 if deep else 3)
            out += sweep(gen.inplace, v, types, r, (2,), rounds=1)
            out += sweep(gen.views, v, dense, r, (0, 2), rounds=1)
            out += sweep(gen.constructors, v, dense, r, (0, 2))
            out += sweep(gen.sparse_constructors, v, [t for t in types if t[0] == "S"], r)
            out += sweep(gen.copies, v, some(dense), r, (2,))
            out += sweep(gen.comparisons, v, some(types), r, (2,))
            if v != "noeigen":
                out += sweep(gen.evaluation, v, types, r, (2,), rounds=2)
            out += sweep(gen.padding, v, [t for t in dense if t.endswith("x")] if deep else ["DDx"] if "DDx" in dense else ["DDlx"], r, (2,), rounds=1)
            out += programs(r, v, [t for t in types if t not in ('DD0', 'D0')], 1, 12)
            if v in ("ndebug", "asan", "exc", "clang", "fast"):
                out += sweep(gen.rejects, v, some(dense, 2), r, (0, 2))
    return out


ALL = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}
