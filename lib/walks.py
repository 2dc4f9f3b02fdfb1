"""Covers every step of the finite protocols (spec/sharing.tla, spec/names.tla): TLC enumerates the graph, tours of it become histories."""
import collections, os, random, re, shutil, subprocess
from run import Broken
from build import VERIF
import gen

CFG = """SPECIFICATION Spec
CONSTANTS %s
INVARIANTS %s
PROPERTIES %s
VIEW Situation
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""


def graph(module, constants, checked, start, work):
    """situation -> {step: situation} of a TLA+ module as TLC enumerates it; also what TLC explored."""
    d = os.path.join(work, "tlc-" + module)
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(VERIF, "spec/%s.tla" % module), d)
    open(os.path.join(d, module + ".cfg"), "w").write(CFG % (constants, " ".join(checked[0]), " ".join(checked[1])))
    r = subprocess.run(["tlc", "-workers", "1", "-metadir", os.path.join(d, "states"), "-config", module + ".cfg", module + ".tla"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600, cwd=d)
    shutil.rmtree(d)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", r.stdout)
    if r.returncode or not m or "No error has been found" not in r.stdout:
        raise Broken("TLC on %s.tla: %s" % (module, r.stdout[-800:]))
    g = collections.defaultdict(dict)
    seq = r"<<([\d,]*)>>"
    flat = re.sub(r"\s+", "", r.stdout)
    for a, b, act, args, c, e in re.findall(r'<<"step",%s,%s,<<"(\w+)"((?:,\d+)*)>>,%s,%s>>' % (seq, seq, seq, seq), flat):
        step = (act,) + tuple(int(x) for x in args.split(",") if x)
        g[(a, b)][step] = (c, e)
    n = sum(map(len, g.values()))
    if n != int(m[1]) - 1 or len(g) != int(m[2]) or start not in g:
        raise Broken("TLC reported %s steps between %s situations, read %d and %d" % (m[1], m[2], n, len(g)))
    return g, {"module": "%s (TLC, %s)" % (module, constants), "invariants": checked[0] + checked[1], "states": int(m[2]), "transitions": n}


def successions(start, g):
    """The graph whose steps are pairs of successive steps of g: its situations are steps of g."""
    first = (start, None, start)
    out = {first: {step: (start, step, y) for step, y in g[start].items()}}
    for x, steps in g.items():
        for step, y in steps.items():
            out[(x, step, y)] = {nxt: (y, nxt, z) for nxt, z in g[y].items()}
    return first, out


def tours(start, g, rng, length):
    """Walks from the start, about length steps each, which together take every step."""
    left = {s: rng.sample(sorted(steps), len(steps)) for s, steps in g.items()}
    todo = sum(map(len, left.values()))
    out = []
    while todo:
        at, walk = start, []
        while todo and len(walk) < length:
            if not left[at]:
                # nearest situation with a step not taken yet
                prev, queue, goal = {at: None}, collections.deque([at]), None
                while queue and goal is None:
                    x = queue.popleft()
                    for step, y in g[x].items():
                        if y not in prev:
                            prev[y] = (x, step)
                            if left[y]:
                                goal = y
                                break
                            queue.append(y)
                path = []
                while prev[goal]:
                    goal, step = prev[goal]
                    path.append(step)
                for step in reversed(path):
                    at = g[at][step]
                    walk.append((step, at))
                continue
            step = left[at].pop()
            todo -= 1
            at = g[at][step]
            walk.append((step, at))
        out.append(walk)
    return out


def history(walk, rng, driver, ty, nr, sizes):
    """A walk over a number type; the abstract sizes become sizes."""
    sizes = list(sizes)
    h = gen.H(rng, driver, ty, sizes[0])
    r = rng
    if h.sn >= 0:
        sizes = [h.sn] * len(sizes)
    un = ["OP_ADDC", "OP_SUBC", "OP_MULC", "OP_CADD", "OP_CSUB", "OP_CMUL", "OP_NEG", "OP_ABS", "OP_SIN", "OP_ATAN", "OP_COS", "OP_CBRT", "OP_ASINH", "OP_TANH"]
    reg = lambda k: k if k < nr else 20 + k - nr
    n = {}                                        # register -> size

    def fill(a):
        h.op("OP_SETALL", [r.randrange(2), a, gen.datalen(h.o, n[a])], h.entries(n[a], f=h.nz()))

    for (act, *x), (ref, size) in walk:
        n = {k: sizes[int(size.split(",")[int(i) - 1]) - 1] for k, i in enumerate(ref.split(",")) if i != "0"}
        if act == "make":
            h.make(x[0], f=h.nz(), n=n[x[0]], density=r.choice([1.0, .6]))
        elif act == "copy":
            h.op("OP_COPY", [r.randrange(7 if h.py else 5), x[0], x[1]]) if not (h.py and h.k == 1) else h.op("OP_ADDC", [0, x[0], x[1]], [0.0])
            h.live.add(x[0])
        elif act == "bind":
            h.op("OP_BIND", [0, x[0], x[1]])
            h.live.add(x[0])
        elif act == "un":
            op = r.choice(un)
            h.un(op, x[0], x[1], [r.choice([h.nz(), 0.0, 1.0])] if op[-1] == "C" or op[3] == "C" and op[4:] in ("ADD", "SUB", "MUL") else [])
        elif act in ("op2", "no2"):
            h.bi(r.choice(["OP_ADD", "OP_SUB", "OP_MUL", "OP_ADD", "OP_SUB", "OP_DIV", "OP_HYPOT", "OP_ATAN2"]), *x) if act == "op2" else \
                h.op(r.choice(["OP_ADD", "OP_SUB", "OP_MUL", "OP_DIV", "OP_HYPOT", "OP_ATAN2"]), [h.sp(), x[0], x[1], x[2]])
        elif act in ("inpl", "noinpl"):
            h.inpl(r.choice(["OP_IADD", "OP_ISUB", "OP_IADD", "OP_ISUB", "OP_IMUL", "OP_IDIV"]), *x)
        elif act == "inplc":
            # Python's += and -= with a number bind the name to a new object: only *= and /= are in place
            op = r.choice(["OP_IMULC", "OP_IDIVC"] + ([] if h.py else ["OP_IADDC", "OP_ISUBC"]))
            h.inplc(op, x[0], r.choice([h.nz(), 1.0, 0.5]))
        elif act == "write":
            if h.k == 1:
                h.inplc("OP_IMULC", x[0], r.choice([0.5, -0.25]))
            else:
                w = r.choice(["F", "G", "D", "ALL", "ALL"])
                L = gen.datalen(h.o, n[x[0]])
                if w == "F":
                    h.op("OP_SETF", [0, x[0]], [h.nz()])
                elif w == "G" and n[x[0]]:
                    h.op("OP_SETG", [0, x[0], r.randrange(n[x[0]])], [h.nz()])
                elif w == "D":
                    h.op("OP_SETDATA", [0, x[0], r.randrange(L)], [h.nz()])
                else:
                    fill(x[0])
        elif act == "resize":
            h.op("OP_RESIZE", [0, x[0], sizes[x[1] - 1]])
            fill(x[0])
        elif act == "pad":
            h.op(r.choice(["OP_PADL", "OP_PADR"]), [h.sp(x[0]), x[0], x[1], sizes[x[2] - 1]])
            h.live.add(x[0])
        elif act == "hold":
            h.op("OP_HOLD", [r.randrange(2), reg(x[0]), x[1]])
        elif act == "poke":
            h.op("OP_HOLDSET", [0, reg(x[0]), 0], [h.nz()])
        elif act == "forget":
            h.op("OP_FORGET", [reg(x[0])])
            h.live.discard(x[0])
    return h.sc


def named_history(walk, rng, driver, ty, few):
    """A walk of the names protocol; the abstract names become few."""
    h = gen.H(rng, driver, ty)
    r = rng
    un = ["OP_ADDC", "OP_CSUB", "OP_MULC", "OP_CDIV", "OP_NEG", "OP_ABS", "OP_SIN", "OP_ATAN", "OP_COS", "OP_CBRT", "OP_ASINH", "OP_TANH", "OP_DIVC"]

    def those(code):
        s = [few[k] for k in range(len(few)) if code >> k & 1]
        r.shuffle(s)
        return s

    for (act, *x), _ in walk:
        if act == "make":
            s = those(x[1])
            f = h.round(r.choice([-1, 1]) * r.uniform(.3, 2))
            if len(s) == 1 and r.random() < .3:
                h.op("OP_SVAR", [h.sp(x[0]), x[0], h.scalar] + s, [f])
            elif not s and r.random() < .3:
                h.op("OP_SCONST", [h.sp(x[0]), x[0], h.scalar], [f])
            else:
                h.op("OP_SDATA", [h.sp() % 10, x[0], h.scalar] + s, [f] + [h.deriv(.85) for _ in s])
            h.live.add(x[0])
        elif act == "un":
            op = r.choice(un)
            h.un(op, x[0], x[1], [r.choice([h.nz(), 1.0, 2.0])] if op[-1] == "C" or op[3] == "C" and op[4:] in ("SUB", "DIV") else [])
        elif act in ("add", "mul", "div", "fn2"):
            h.bi({"add": r.choice(["OP_ADD", "OP_SUB"]), "mul": "OP_MUL", "div": "OP_DIV", "fn2": r.choice(["OP_ATAN2", "OP_HYPOT"])}[act], *x)
        elif act == "fn3":
            h.tri(*x)
        elif act in ("iadd", "imul", "idiv"):
            h.inpl({"iadd": r.choice(["OP_IADD", "OP_ISUB"]), "imul": "OP_IMUL", "idiv": "OP_IDIV"}[act], *x)
        elif act == "inplc":
            h.inplc(r.choice(gen.INPLC), x[0], r.choice([h.nz(), 2.0, -0.5]))
        elif act == "ask":
            h.op("OP_SGET", [0, x[0]])
        elif act == "eval":
            s = those(x[1])
            h.op("OP_EVAL", [0, x[0]] + s, [h.val() for _ in s])
        elif act == "forget":
            h.op("OP_FORGET", [x[0]])
            h.live.discard(x[0])
    return h.sc


def named(rng, work, driver, types, share=1.0, length=220):
    """Histories over sparse numbers that together take every step of the names protocol, or a share of them."""
    start = ("0,0",) * 2
    g, stat = graph("names", "NR = 2 NN = 3", (["TypeOK"], ["Frame", "From"]), start, work)
    walks = tours(start, g, rng, length)
    walks = rng.sample(walks, max(1, int(share * len(walks))))
    out = [named_history(w, rng, driver, types[i % len(types)], rng.sample(range(gen.U), 3)) for i, w in enumerate(walks)]
    return out, dict(stat, histories=len(out))


def shared(rng, work, driver, types, share=1.0, length=220, pairs=False):
    """Histories over number types (sizes of dynamic ones free) that together take every step of the sharing protocol
    (pairs: every two successive steps), or a share of them."""
    py = driver == "py"
    t0 = types[0] if py else gen.TYPES[types[0]][1]
    dyn = t0[0] == 0 and t0[3] < 0
    nr, nv = 3, 1 if py and t0[0] == 0 else 0
    start = (",".join(["0"] * (nr + nv)),) * 2
    g, stat = graph("sharing", "NR = %d NV = %d Sizes = {%s} Aliases = %s" % (nr, nv, "1, 2" if dyn else "1", "TRUE" if py else "FALSE"),
                    (["TypeOK", "Alive", "NoAlias"], ["Frame", "New"]), start, work)
    if pairs:
        first, g2 = successions(start, g)
        walks = [[(step, x[2]) for step, x in w] for w in tours(first, g2, rng, length)]
        stat = dict(stat, module=stat["module"] + ", successions of two steps", transitions=sum(map(len, g2.values())))
    else:
        walks = tours(start, g, rng, length)
    walks = rng.sample(walks, max(1, int(share * len(walks))))
    out = []
    for i, w in enumerate(walks):
        sizes = rng.choice([(1, 2), (2, 3), (1, 3), (2, 4)])
        out.append(history(w, rng, driver, types[i % len(types)], nr, sizes))
    return out, dict(stat, histories=len(out))
