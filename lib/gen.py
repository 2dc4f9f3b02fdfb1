"""Generators of histories. They only choose what to call; whether a call went right is decided by the specification."""
import math, os, random, re, struct
from build import OPS, TYPES, VERIF
from run import Scenario

A = OPS["ABSENT"]
ARITH2 = ["OP_ADD", "OP_SUB", "OP_MUL", "OP_DIV"]
ARITHC = ["OP_ADDC", "OP_SUBC", "OP_MULC", "OP_DIVC", "OP_CADD", "OP_CSUB", "OP_CMUL", "OP_CDIV"]
INPL = ["OP_IADD", "OP_ISUB", "OP_IMUL", "OP_IDIV"]
INPLC = ["OP_IADDC", "OP_ISUBC", "OP_IMULC", "OP_IDIVC"]
# one-argument functions and points of their domains
POINTS = {
    "OP_SQRT": [0.25, 2.0, 3.7, 1e-4, 5e3, 1.0], "OP_CBRT": [0.125, -2.0, 3.3, -1e-3, 1e3, 1.0, -0.7],
    "OP_RECIP": [0.5, -2.0, 3.7, -1e-3, 40.0, 1.0, -1.0], "OP_COS": [0.0, 0.7, -2.5, 9.1, 3.0, -0.3, 1e3], "OP_SIN": [0.0, 0.7, -2.5, 9.1, 3.0, -0.3, 1e3],
    "OP_TAN": [0.0, 0.7, -2.5, 3.0, -1.2, 9.0], "OP_ACOS": [0.0, 0.5, -0.7, 0.95, -0.95, 0.01], "OP_ASIN": [0.0, 0.5, -0.7, 0.95, -0.95, 0.01],
    "OP_ATAN": [0.0, 0.5, -0.7, 3.5, -40.0, 1.0], "OP_COSH": [0.0, 0.7, -2.5, 6.0, -0.1], "OP_SINH": [0.0, 0.7, -2.5, 6.0, -0.1], "OP_TANH": [0.0, 0.7, -2.5, 4.0, -0.1],
    "OP_ACOSH": [1.25, 2.0, 7.5, 90.0], "OP_ASINH": [0.0, 0.7, -2.5, 30.0, -0.01], "OP_ATANH": [0.0, 0.5, -0.7, 0.95, -0.05],
    "OP_EXP": [0.0, 0.7, -2.5, 6.0, -20.0, 1.0], "OP_LOG": [0.25, 2.0, 3.7, 1e-4, 5e3, 1.0], "OP_LOG2": [0.25, 2.0, 3.7, 1e-4, 5e3, 1.0],
    "OP_LOG10": [0.25, 2.0, 3.7, 1e-4, 5e3, 1.0],
}
# arguments far from one and close to places where shortcuts begin
SMALL = [1e-3, -1e-3, 1e-4, 1e-6, -1e-8, 1e-12]
EXTREME = {
    "OP_SQRT": [1e-12, 1e12, 1.000001, 123456.0], "OP_CBRT": [1e-9, -1e9, 1e12, -1.000001], "OP_RECIP": [1e-6, -1e6, 1e9, 1.000001],
    "OP_COS": SMALL + [100.0, -1e6, 3.14159265, 1.57079633], "OP_SIN": SMALL + [100.0, -1e6, 3.14159265, 1.57079633], "OP_TAN": SMALL + [100.0, -1e6, 3.14159265],
    "OP_ACOS": SMALL + [0.98, -0.98, 0.5000001], "OP_ASIN": SMALL + [0.98, -0.98, 0.5000001], "OP_ATAN": SMALL + [1e5, -1e5, 1e9, 1.000001, -1.0],
    "OP_COSH": SMALL + [30.0, -30.0, 20.0], "OP_SINH": SMALL + [30.0, -30.0, 20.0], "OP_TANH": SMALL + [10.0, -15.0, 19.0, 25.0, -40.0],
    "OP_ACOSH": [1.02, 1e3, 1e6, 1e9], "OP_ASINH": SMALL + [1e3, -1e3, 1e6, -1e6], "OP_ATANH": SMALL + [0.98, -0.98],
    "OP_EXP": SMALL + [40.0, -40.0, 25.0, -30.0], "OP_LOG": [1e-12, 1e12, 1.000001, 0.999999, 1.0001], "OP_LOG2": [1e-12, 1e12, 1.000001, 0.999999, 1024.0],
    "OP_LOG10": [1e-12, 1e12, 1.000001, 0.999999, 1000.0],
}
HUGE = [1e25, 1e60, 1e150, 1e200, 1e270]
QUADX = [(1e-6, 1.0), (1.0, -1e-6), (-1e-6, -1.0), (1e5, -1e-5), (1e8, 1e8), (-1e6, 2e6), (1e-5, 2e-5), (-1e-5, 0.0), (0.0, 1e7), (3.0, 4.0), (1.0, 1.000001), (-1.0, 0.999999)]
POWX = [(1e-4, 2.0), (1e6, 3.0), (1e-3, -2.0), (1e4, 0.5), (1e-6, 1.5), (1.0, 20.0), (-1.0, 21.0), (1.0, 0.0), (-1.0, -1.0), (1.01, 50.0), (0.99, -30.0), (2.0, 20.0), (2.0, 1.0000001),
        (3.0, 2.0000001), (3.0, 1e-7), (-2.0, 12.0), (7.5, -5.0), (1e-3, 0.25), (-1e-3, 3.0), (1.000001, 3.0)]
POWS = [(2.5, 2), (-1.5, 2), (-1.5, 3), (-1.5, 4), (-2.5, -1), (-0.5, -2), (-1.25, -3), (0.0, 2), (0.0, 3), (0.0, 1), (0.0, 0), (1.7, 0), (-1.7, 0), (-1.7, 1), (1.7, 1),
        (0.0, 4), (0.0, 5), (0.7, 0.5), (0.7, -0.5), (3.1, 2.5), (3.1, -1.5), (0.2, 1 / 3), (5.0, 6), (-1.1, 7), (1.5, 0.1), (2.0, -3.7), (1.0, 4.4), (0.3, 1.5), (1.3, 1.00390625), (0.9, 2.015625)]
LOGBS = [(0.25, 2.0), (3.7, 3.0), (5.0, 0.5), (1.0, 10.0), (2.0, 2.0), (0.01, 1.5), (40.0, 0.125), (7.0, 10.0)]
# two operands: every combination of signs, zeros and relative size
QUAD = [(1.5, 0.5), (0.5, 1.5), (-1.5, 0.5), (-0.5, 1.5), (1.5, -0.5), (0.5, -1.5), (-1.5, -0.5), (-0.5, -1.5), (0.0, 2.0), (0.0, -2.0), (3.0, 0.0), (-3.0, 0.0),
        (1.0, 1.0), (-1.0, 1.0), (2.0, -2.0), (-2.0, -2.0), (1e-3, 40.0), (40.0, -1e-3)]
OCT = [(x, y, z) for x in (1.5, -0.5) for y in (2.0, -0.75) for z in (3.0, -1.25)] + \
      [(0.0, 1.5, -2.0), (1.5, 0.0, -2.0), (1.5, -2.0, 0.0), (0.0, 0.0, -2.0), (0.0, 3.0, 0.0), (-1.0, 0.0, 0.0), (1.0, 1.0, 1.0), (40.0, 1e-3, 2.0)]
U = int(re.search(r"pure val U: int = (\d+)", open(os.path.join(VERIF, "spec/jets.qnt")).read())[1])      # names of sparse variables
DENSE = lambda t: TYPES[t][1][0] == 0


def datalen(o, n):
    return 1 + n if o == 1 else (n + 1) * (n + 2) // 2


class H:
    """A history under construction over one number type; dynamic numbers use size n unless told otherwise."""

    def __init__(self, rng, driver, ty, n=None, lanes=0, tag=""):
        self.rng, self.driver, self.py = rng, driver, driver == "py"
        self.name = ty if isinstance(ty, str) else "-"
        self.ty = TYPES[ty][1] if isinstance(ty, str) else ty
        self.k, self.scalar, self.o, self.sn = self.ty
        self.dyn = self.sn < 0
        self.n = self.sn if self.sn >= 0 else (3 if n is None else n)
        self.sc = Scenario(driver, "-" if self.py else ty, lanes, tag or ("%s %s n=%d" % (driver, self.ty, self.n)))
        self.live = set()
        self.srng = random.Random(rng.random())               # spellings do not influence what a program does

    # spellings
    def sp(self, dst=None):
        if self.py:
            return self.srng.randrange(60)
        return self.srng.randrange(2) + (10 if dst in self.live and self.srng.random() < .5 else 0)

    def op(self, name, I, D=()):
        self.sc.op(name, I, D)

    # values
    def round(self, x):
        if self.scalar == 1 and x != 0 and math.isfinite(x):
            m, e = math.frexp(x)
            return math.ldexp(round(m * 2 ** 16), e - 16)
        return x

    def huge(self):
        return self.round(self.rng.choice([1e11, 1e20, 1e25] if self.scalar == 1 else HUGE) * self.rng.uniform(.5, 2))

    def val(self):
        r = self.rng
        c = r.randrange(8)
        x = (r.uniform(-3, 3), r.uniform(-3, 3), float(r.randint(-4, 4)), r.choice([1.0, -1.0, 0.5, -0.5, 2.0, -2.0]), r.uniform(-1e-3, 1e-3),
             r.uniform(-200, 200), r.uniform(.2, 1.7), -r.uniform(.2, 1.7))[c]
        return self.round(x)

    def nz(self):
        while True:
            x = self.val()
            if abs(x) > 1e-4:
                return x

    def deriv(self, density):
        if self.rng.random() >= density:
            return -0.0 if self.rng.random() < .1 else 0.0
        return self.rng.choice([1.0, -1.0, self.val(), self.val(), self.val()])

    def entries(self, n, f=None, density=None):
        """Contents of a number: value and derivatives with a random pattern of zeros."""
        r = self.rng
        if density is None:
            density = r.choice([0.0, 0.3, 0.6, 1.0, 1.0])
        d = [self.val() if f is None else f]
        d += [self.deriv(density) for _ in range(n)]
        if self.k == 0 and self.o == 2:
            d += [self.deriv(r.choice([density, 0.0, 1.0])) for _ in range(n * (n + 1) // 2)]
        return [self.round(x) for x in d]

    def names(self):
        """Mostly few names, so that operands share some; now and then many."""
        r = self.rng
        if r.random() < .12:
            return r.sample(range(U), r.choice([8, 13, U - 1, U]))
        return r.sample(range(9), r.choice([0, 1, 2, 3, 4, 9]))

    # construction of arbitrary numbers
    def head(self, sp, dst, size=None):
        return [sp, dst, A if size is None else size, self.k, self.scalar, self.o, self.sn]

    def make(self, dst, f=None, density=None, n=None):
        n = self.n if n is None else n
        if self.k == 1:
            names = self.names()
            self.op("OP_SDATA", [self.sp() % 10, dst, self.scalar] + names, [self.val() if f is None else f] + [self.deriv(1 if density is None else density) for _ in names])
        else:
            self.op("OP_DATA", self.head(self.rng.randrange(10) if self.py else self.rng.choice([0, 2]), dst), self.entries(n, f, density))
        self.live.add(dst)
        return dst

    def forget(self, *rs):
        for r in rs:
            if r in self.live:
                self.op("OP_FORGET", [r])
                self.live.discard(r)

    def un(self, op, dst, a, D=()):
        if op == "OP_POW" and not self.py:
            s = self.rng.choice([0, 1] + ([2] if D[0] == int(D[0]) else []))
            self.op(op, [s + (10 if dst in self.live and self.rng.random() < .5 else 0), dst, a], D)
        else:
            self.op(op, [self.sp(dst), dst, a], D)
        self.live.add(dst)

    def bi(self, op, dst, a, b):
        self.op(op, [self.sp(dst), dst, a, b])
        self.live.add(dst)

    def tri(self, dst, a, b, c):
        self.op("OP_HYPOT3", [self.sp(dst), dst, a, b, c])
        self.live.add(dst)

    def inpl(self, op, a, b):
        self.op(op, [self.sp(), a, b])

    def inplc(self, op, a, c):
        self.op(op, [self.sp(), a], [c])

    @property
    def result(self):
        return self.sc


def hs(rng, driver, ty, sizes=(3,), **kw):
    """Histories for a type: a fixed-size type has its own size, a dynamic one each of the sizes given."""
    t = TYPES[ty][1] if isinstance(ty, str) else ty
    for n in (sizes if t[0] == 0 and t[3] < 0 else (None,)):
        yield H(rng, driver, ty, n, **kw)


# ---------------------------------------------------------------- sweeps; each appends to one history

def arith(h, rounds=2):
    """Every arithmetic operator on operands with all patterns of zero and nonzero derivatives."""
    r = h.rng
    for _ in range(rounds):
        h.make(0)
        h.make(1, f=h.nz())
        for op in ARITH2:
            h.bi(op, 2, 0, 1)
            if op != "OP_DIV" and r.random() < .3:
                h.bi(op, 3, 1, 0)
            if r.random() < .4:
                h.bi(op, r.choice([1, 2, 3]), 1, 1)      # both operands the same object, maybe stored over itself
                h.make(1, f=h.nz())
        h.un("OP_NEG", 2, 0)
        for op in ARITHC:
            c = h.nz() if op == "OP_DIVC" else r.choice([h.val(), 0.0, 1.0, -1.0, 2.0])
            h.un(op, 2, 1 if op == "OP_CDIV" else r.choice([0, 1]), [c])
    special_arith(h, 2 + rounds)
    # derivatives all zero / all ones, value zero, extreme scales
    n = h.n
    if h.k == 0:
        L = datalen(h.o, n)
        big = 1e12 if h.scalar == 1 else 1e30
        for d0, d1 in (([0.0] * L, [1.0] * L), ([2.0] + [0.0] * (L - 1), [-3.0] + [0.0] * (L - 1)), ([big] * L, [1 / big] * L), ([0.0] + [1.0] * (L - 1), [-1.0] * L)):
            d0, d1 = [h.round(x) for x in d0], [h.round(x) for x in d1]
            h.op("OP_DATA", h.head(0, 0), d0)
            h.op("OP_DATA", h.head(0, 1), d1)
            for op in ARITH2:
                if op != "OP_DIV" or d1[0] != 0:
                    h.bi(op, 2, 0, 1)
            h.un("OP_CDIV", 2, 1, [h.nz()])
        if n >= 1:
            # disjoint dependencies: the first number depends on some variables, the second on the others
            d0, d1 = [2.5] + [0.0] * (L - 1), [-1.25] + [0.0] * (L - 1)
            for i in range(n):
                (d0 if i % 2 else d1)[1 + i] = h.nz()
            h.op("OP_DATA", h.head(0, 0), [h.round(x) for x in d0])
            h.op("OP_DATA", h.head(0, 1), [h.round(x) for x in d1])
            for op in ARITH2:
                h.bi(op, 2, 0, 1)
                h.bi(op, 2, 1, 0)


def pairs(h, k):
    """Operand values at which an implementation may take a shortcut."""
    x = h.nz()
    ps = [(0.0, 0.0), (0.0, x), (x, 0.0), (x, x), (x, -x), (1.0, x), (x, 1.0), (-1.0, x), (x, -1.0), (2.0, 2.0), (1.0, 1.0), (x, 2.0), (x, 0.5), (-0.0, x), (x, -0.0)]
    return h.rng.sample(ps, min(k, len(ps)))


def special_arith(h, k=4):
    for x, y in pairs(h, k):
        h.make(0, f=x, density=h.rng.choice([1.0, 1.0, 0.5]))
        h.make(1, f=y, density=h.rng.choice([1.0, 1.0, 0.5]))
        for op in ARITH2:
            if op != "OP_DIV" or y != 0:
                h.bi(op, 2, 0, 1)
        for op, a in (("OP_ADDC", 0), ("OP_SUBC", 0), ("OP_MULC", 0), ("OP_DIVC", 0), ("OP_CADD", 1), ("OP_CSUB", 1), ("OP_CMUL", 1), ("OP_CDIV", 1)):
            c = (y, x)[a]
            if h.rng.random() < .4 and (op != "OP_DIVC" or c != 0) and (op != "OP_CDIV" or y != 0):
                h.un(op, 2, a, [c])


def special_inplace(h, k=4):
    for x, y in pairs(h, k):
        h.make(1, f=y, density=h.rng.choice([1.0, 1.0, 0.5]))
        for op in INPL:
            if op != "OP_IDIV" or y != 0:
                h.make(0, f=x, density=h.rng.choice([1.0, 1.0, 0.5]))
                h.inpl(op, 0, 1)
        for op in INPLC:
            if h.rng.random() < .4 and (op != "OP_IDIVC" or y != 0):
                h.make(0, f=x, density=1.0)
                h.inplc(op, 0, y)


def memory(h, ops=None, rounds=1):
    """The same and nearby arguments again and again: nothing but the operands' contents may matter."""
    r = h.rng
    eps = 2.0 ** -13 if h.scalar == 1 else 2.0 ** -28
    fs = list(POINTS) if ops is None else ops
    for _ in range(rounds):
        for f in r.sample(fs, len(fs)):
            x = r.choice([p for p in POINTS[f] if p != 0 and abs(p) != 1])
            odd = min(POINTS[f]) < 0
            seq = [x, x, -x if odd else x * (1 + eps), x * (1 + eps), r.choice(POINTS[f]), x]
            for i, y in enumerate(seq):
                h.make(i % 2, f=h.round(y), density=1.0)
                h.un(f, 2 + i % 3, i % 2)
        # one argument, many functions
        for x in (0.5, -0.5, 0.5 * (1 + eps)):
            same = [f for f in fs if f != "OP_ACOSH" and (x > 0 or min(POINTS[f]) < 0)]
            for f in r.sample(same, min(len(same), 8)):
                h.make(0, f=h.round(x), density=1.0)
                h.un(f, 2, 0)
        for x, e in [(1.5, 2.0), (1.5, 3.0), (-1.5, 2.0), (1.5, 2.0), (1.5, 2.5), (1.25, 2.5), (1.5, -2.0), (1.5, 2.0), (-1.5, 3.0), (1.5, 3.0), (1.5, 0.5), (1.5 * (1 + eps), 0.5), (0.75, 0.5), (0.75, 1.0), (0.75, 2.0)]:
            h.make(0, f=h.round(x), density=1.0)
            h.un("OP_POW", 2, 0, [e])
        for x, b in [(1.5, 2.0), (1.5, 3.0), (2.5, 3.0), (1.5, 2.0)]:
            h.make(0, f=h.round(x), density=1.0)
            h.un("OP_LOGB", 2, 0, [b])
        for x, y in [(1.5, 0.5), (0.5, 1.5), (-1.5, 0.5), (1.5, -0.5), (1.5, 0.5), (1.5 * (1 + eps), 0.5)]:
            h.make(0, f=h.round(x), density=1.0)
            h.make(1, f=h.round(y), density=1.0)
            for op in ["OP_ATAN2", "OP_HYPOT", "OP_DIV", "OP_MUL"]:
                h.bi(op, 2, 0, 1)
            h.tri(3, 0, 1, 0)
            h.un("OP_CDIV", 2, 1, [x])
    h.forget(3)


def ladder(h, kind):
    """A few calls of one kind at an unusual size."""
    r, n = h.rng, h.n
    h.make(0, density=1.0)
    h.make(1, f=h.nz(), density=1.0)
    h.make(2, f=h.nz(), density=.5)
    if kind == "arith":
        for op in ARITH2:
            h.bi(op, 3, r.choice([0, 2]), 1)
        h.un("OP_CDIV", 3, 2, [h.nz()])
        h.un(r.choice(ARITHC), 3, 0, [h.nz()])
    elif kind == "inplace":
        for op in INPL:
            h.op("OP_COPY", [0, 4, 0])
            h.live.add(4)
            h.inpl(op, 4, r.choice([1, 2, 4]) if op != "OP_IDIV" else 1)
        h.inplc(r.choice(INPLC), 0, h.nz())
    elif kind == "functions":
        for op in r.sample(list(POINTS), 3):
            h.make(0, f=h.round(r.choice(POINTS[op])), density=1.0)
            h.un(op, 3, 0)
    elif kind == "multi":
        h.bi(r.choice(["OP_ATAN2", "OP_HYPOT"]), 3, 2, 1)
        h.tri(3, 0, 1, 2)
    elif kind == "eval":
        h.op("OP_EVAL", [0, 0], [h.val() for _ in range(n)])


def inplace(h, rounds=2):
    """In-place operators, also on themselves; two bystanders must keep their contents."""
    r = h.rng
    h.make(5)
    special_inplace(h, 2 + rounds)
    for _ in range(rounds):
        h.make(0)
        h.make(1, f=h.nz())
        for op in r.sample(INPL, 4):
            h.inpl(op, 0, 1)
            if r.random() < .3:
                h.make(0)
        h.make(0)
        for op in r.sample(INPLC, 4):
            h.inplc(op, 0, h.nz() if op == "OP_IDIVC" else r.choice([h.val(), 0.0, 1.0, -2.5]))
            if r.random() < .3:
                h.make(0)
        for op in r.sample(INPL, 4):
            h.make(0, f=h.nz(), density=1.0)
            h.inpl(op, 0, 0)
        h.make(0, f=h.nz(), density=1.0)
        for op in ("OP_IMUL", "OP_IDIV", "OP_IADD", "OP_ISUB"):
            h.inpl(op, 0, 0)
            h.inpl(op, 1, 1)
            h.make(1, f=h.nz())
            h.make(0, f=h.nz(), density=1.0)
        if h.k == 0:
            # by an entry of its own or of the other number
            for op in ("OP_IMULE", "OP_IDIVE", "OP_IADDE", "OP_ISUBE"):
                for b, e in ((0, 0), (0, r.randrange(datalen(h.o, h.n))), (1, r.randrange(datalen(h.o, h.n)))):
                    h.make(0, f=h.nz(), density=1.0)
                    h.make(1, f=h.nz(), density=1.0)
                    h.op(op, [h.sp(), 0, b, e])
        # values far smaller than the derivatives: a target read while it is written shows at once
        for op in ("OP_IDIV", "OP_IMUL"):
            h.make(0, f=h.round(r.choice([1, -1]) * r.uniform(1, 9) * (1e-5 if h.scalar == 1 else 1e-9)), density=1.0)
            h.inpl(op, 0, 0)
        if h.py:
            # another name of the same object
            h.op("OP_BIND", [0, 2, 0])
            h.live.add(2)
            for op in r.sample(INPL, 2):
                h.inpl(op, 0, 2)
                h.inpl(op, 2, 1)
                h.inpl(op, 1, 0)
                h.op("OP_SETF", [0, 0], [h.nz()]) if h.k == 0 else None
            h.inplc("OP_IMULC", 2, h.nz())
            h.inplc("OP_IDIVC", 0, h.nz())
            h.forget(2)


def functions(h, ops=None, per=None, pows=True):
    """Every one-argument function at points of its domain."""
    r = h.rng
    h.make(9)
    for op in (ops or list(POINTS)):
        pts, far = POINTS[op], EXTREME[op]
        for x in (pts + far if per is None else r.sample(pts, min(per, len(pts))) + r.sample(far, r.choice([0, 1, min(2, per)]))):
            h.make(0, f=h.round(x))
            h.un(op, 1, 0)
    if ops is None:
        # arguments so large that only the value is foreseeable
        for op in r.sample(["OP_SQRT", "OP_CBRT", "OP_LOG", "OP_LOG2", "OP_LOG10", "OP_ATAN", "OP_ASINH", "OP_ACOSH", "OP_TANH", "OP_MULC", "OP_DIVC", "OP_ADDC", "OP_LOGB"], 4 if per else 13):
            x = h.huge()
            h.make(0, f=-x if op in ("OP_CBRT", "OP_ATAN", "OP_ASINH", "OP_TANH") and r.random() < .5 else x)
            h.un(op, 1, 0, [h.nz()] if op[-1] == "C" else [2.5] if op == "OP_LOGB" else [])
    if pows and ops is None:
        for x, e in (POWS if per is None else r.sample(POWS, min(6 * per, len(POWS)))):
            h.make(0, f=h.round(x))
            h.un("OP_POW", 1, 0, [e])
        for x, e in (POWX if per is None else r.sample(POWX, 2 * per)):
            h.make(0, f=h.round(x))
            h.un("OP_POW", 1, 0, [h.round(e)])
        for x, b in (LOGBS if per is None else r.sample(LOGBS, min(2 * per, len(LOGBS)))):
            h.make(0, f=h.round(x))
            h.un("OP_LOGB", 1, 0, [h.round(b)])
        for x in (1.5, -1.5, 0.0, -0.0):
            h.make(0, f=x)
            h.un("OP_ABS", 1, 0)
            h.un("OP_NEG", 1, 0)


def rand_functions(h, count=40):
    """One-argument functions at random points."""
    r = h.rng
    dom = {"OP_SQRT": (1e-3, 9), "OP_CBRT": (-9, 9), "OP_RECIP": (-4, 4), "OP_COS": (-9, 9), "OP_SIN": (-9, 9), "OP_TAN": (-1.4, 1.4), "OP_ACOS": (-.97, .97), "OP_ASIN": (-.97, .97),
           "OP_ATAN": (-9, 9), "OP_COSH": (-4, 4), "OP_SINH": (-4, 4), "OP_TANH": (-3, 3), "OP_ACOSH": (1.1, 9), "OP_ASINH": (-9, 9), "OP_ATANH": (-.97, .97), "OP_EXP": (-5, 5),
           "OP_LOG": (1e-3, 9), "OP_LOG2": (1e-3, 9), "OP_LOG10": (1e-3, 9)}
    for _ in range(count):
        op = r.choice(list(dom))
        lo, hi = dom[op]
        x = r.uniform(lo, hi)
        if r.random() < .3 and op != "OP_ACOSH":
            # any magnitude
            x = max(lo, min(hi, r.choice([-1, 1]) * 10 ** r.uniform(-9, 1))) or x
        h.make(0, f=h.round(x))
        h.un(op, 1, 0)
        if r.random() < .2:
            e = r.choice([r.uniform(-3, 3), float(r.randint(-4, 6))])
            h.make(0, f=h.round(r.uniform(.1, 3) if e != int(e) else r.choice([-1, 1]) * r.uniform(.1, 3)))
            h.un("OP_POW", 1, 0, [e])


def multi(h, per=None):
    """Two- and three-operand functions in every quadrant, also with operands that are the same object."""
    r = h.rng
    for op in ("OP_ATAN2", "OP_HYPOT"):
        for x, y in (QUAD if per is None else r.sample(QUAD, per)):
            h.make(0, f=h.round(x))
            h.make(1, f=h.round(y))
            h.bi(op, 2, 0, 1)
            if r.random() < .3:
                h.bi(op, r.choice([0, 1, 2]), 1, 0)
        for x in (2.0, -1.5):
            h.make(0, f=x)
            h.bi(op, 2, 0, 0)
            h.bi(op, 0, 0, 0)
    for x, y in (QUADX if per is None else r.sample(QUADX, max(1, per // 2))):
        h.make(0, f=h.round(x))
        h.make(1, f=h.round(y))
        h.bi(r.choice(["OP_ATAN2", "OP_HYPOT"]), 2, 0, 1)
    for x, y in [(r.choice([1, -1]) * h.huge(), h.nz()), (h.nz(), h.huge()), (h.huge(), -h.huge())]:
        h.make(0, f=x)
        h.make(1, f=y)
        for op in ("OP_ATAN2", "OP_HYPOT"):
            h.bi(op, 2, 0, 1)
        h.tri(3, 0, 1, 1)
    for t in (OCT if per is None else r.sample(OCT, min(per, len(OCT)))):
        for k in range(3):
            h.make(k, f=h.round(t[k]))
        h.tri(3, 0, 1, 2)
        if r.random() < .4:
            h.tri(r.choice([1, 3]), *r.choice([(0, 0, 2), (2, 1, 2), (1, 2, 2), (2, 2, 2)]) if t[2] != 0 else (2, 1, 0))
    h.forget(3)


def views(h, rounds=2):
    """Every view, and writes through every one of them."""
    r, n = h.rng, h.n
    L = datalen(h.o, n)
    full = 1 | 2 | 64 | (8 | 16 | 32 if h.o == 2 else 0)
    if not h.py:
        full |= (4 if h.o == 2 else 0) | (128 if h.driver != "noeigen" else 0)
    if h.driver == "noeigen":
        full &= ~(16 | 32)

    def look():
        h.op("OP_VIEWS", [full | (256 if not h.py and r.random() < .5 else 0), 0])
    for _ in range(rounds):
        h.make(0, density=1.0)
        h.make(1, density=1.0)
        look()
        if h.py:
            h.op("OP_HOLD", [0, 20, 0])
            h.op("OP_HOLD", [1, 21, 0])
        ws = ["F", "G", "D", "ALL"] + (["HIJ", "HIJ", "HM", "H"] if h.o == 2 else []) + ([] if h.py else ["ZERO"]) + (["HS", "HS", "IP"] if h.py else [])
        for w in r.sample(ws, len(ws)) + r.choices(ws, k=4):
            s = r.randrange(60) if h.py else r.randrange(2 if h.driver == "noeigen" else 3)
            if w == "F":
                h.op("OP_SETF", [s, 0], [h.val()])
            elif w == "G" and n:
                h.op("OP_SETG", [s, 0, r.randrange(n)], [h.val()])
            elif w == "D":
                h.op("OP_SETDATA", [s, 0, r.randrange(L)], [h.val()])
            elif w == "ALL":
                h.op("OP_SETALL", [s % 2, 0, L], h.entries(n, density=r.choice([1.0, .5])))
            elif w == "HIJ" and n:
                h.op("OP_SETHIJ", [s, 0, r.randrange(n), r.randrange(n)], [h.val()])
            elif w == "H" and n and not h.py:
                h.op("OP_SETH", [s, 0, r.randrange(n * (n + 1) // 2)], [h.val()])
            elif w == "HM" and h.driver != "noeigen":
                h.op("OP_SETHM", [s, 0, n, n], [h.deriv(.8) for _ in range(n * n)])
            elif w == "ZERO":
                h.op("OP_SETZERO", [0, 0])
            elif w == "HS":
                v = r.choice([20, 21])
                m = L if v == 20 else n
                if m:
                    h.op("OP_HOLDSET", [0, v, r.randrange(m)], [h.deriv(.8)])
            elif w == "IP":
                h.op(r.choice(["OP_IMUL", "OP_IADD", "OP_ISUB"]), [0, 0, r.choice([0, 1])])
            if r.random() < .4:
                look()
        look()
        if h.py:
            # a kept view outlives the name of its number
            h.op("OP_FORGET", [0])
            h.live.discard(0)
            h.op("OP_HOLDSET", [0, 20, 0], [h.val()])
            h.op("OP_FORGET", [20])
            h.op("OP_FORGET", [21])
    # every entry of the Hessian through both orders of its indices
    if h.o == 2 and n:
        h.make(0, density=1.0)
        for i in range(min(n, 5)):
            for j in range(min(n, 5)):
                h.op("OP_SETHIJ", [0, 0, n - 1 - i, n - 1 - j], [h.val()])
        look()
        if h.driver != "noeigen":
            for density in (1.0, .5, 0.0):
                h.make(0, density=density)
                for mode in (0, 1):
                    h.op("OP_HM", [0, 0, mode])
                    h.op("OP_HM", [1, 0, mode])


def constructors(h):
    """Everything that makes a number out of plain data."""
    r, n, L = h.rng, h.n, datalen(h.o, h.n)
    size = None if not h.dyn else n
    full = 1 | 2 | (8 if h.o == 2 else 0) | 64
    sp = (lambda k: r.randrange(60)) if h.py else (lambda k: r.randrange(k))

    def look(dst=0):
        h.op("OP_VIEWS", [full, dst])
        h.op("OP_INFO", [15 | (0 if h.py else 16), dst])
    for give in (True, False):
        s = (n if give else None)
        if not give and h.dyn:
            eff = None
        h.op("OP_ZERO", h.head(sp(1), 0, s))
        look()
        h.op("OP_EMPTY", h.head(sp(1), 0, s))
        h.op("OP_INFO", [15, 0])
        h.op("OP_CONST", h.head(sp(1) if h.py or give else sp(2), 0, s), [h.val()])
        look()
        if give or not h.dyn:
            for i in range(n) if n <= 6 else r.sample(range(n), 4) + [0, n - 1]:
                h.op("OP_VAR", h.head(sp(1), 0, s) + [i], [h.val()])
            if n:
                look()
    if h.dyn:
        h.op("OP_DEFAULT", h.head(0, 0))
        look()
        h.op("OP_ZERO", h.head(0, 0))
        look()
    h.forget(0)
    h.op("OP_FORGET", [0])
    if not h.py and h.dyn:
        for m in (r.choice([0, 4, 5]), r.choice([6, 7]), r.choice([9, 17])):
            h.op("OP_VARS", h.head(1, 1), [h.val() for _ in range(m)])
            for k in range(m):
                h.op("OP_FORGET", [1 + k])
    # a list of values: each number in turn
    for k in range(2):
        h.op("OP_VARS", h.head(sp(2) if h.py or not h.dyn or n in (0, 1, 2, 3, 4, 5, 6, 7, 9, 17) else 0, 1), [h.val() for _ in range(n)])
    for k in range(n):
        if k < 2 or k == n - 1:
            look(1 + k)
        h.op("OP_FORGET", [1 + k])
    for s in (range(10) if h.py else [0, 2] + ([1] if L <= 6 or L == 10 else [])):
        h.op("OP_DATA", h.head(s, 0), h.entries(n, density=1.0))
    look()
    if h.driver != "noeigen":
        for s in (range(10) if h.py else [0]):
            if h.o == 1:
                h.op("OP_GRAD", h.head(s, 0), h.entries(n, density=1.0))
            else:
                m = [h.val() for _ in range(n * n)]
                h.op("OP_ARRS", h.head(s, 0) + [n, n, n], [h.val()] + [h.val() for _ in range(n)] + m)
        look()


def sparse_constructors(h):
    r = h.rng
    for k in range(3):
        h.op("OP_SCONST", [h.sp(), 0, h.scalar], [h.val()])
        h.op("OP_SGET", [0, 0])
    for k in range(U):
        h.op("OP_SVAR", [h.sp(), 1, h.scalar, k], [h.val()])
        h.op("OP_SGET", [0, 1])
    for _ in range(3):
        names = r.sample(range(U), r.choice([0, 3, 6, 9, U]))
        h.op("OP_SDATA", [h.sp(), 2, h.scalar] + names, [h.val()] + [h.deriv(.8) for _ in names])
        h.op("OP_SGET", [0, 2])
    h.live |= {0, 1, 2}


def rng_size(r):
    return r.choice([r.randint(20, 200), r.randint(200, 50000), r.randint(50000, 2 ** 20), r.randint(2 ** 20, 2 ** 29)])


def rejects(h):
    """Malformed calls; objects made before must keep their contents."""
    r, n, o = h.rng, h.n, h.o
    L = datalen(o, n)
    h.make(0, density=1.0)
    h.make(1, density=1.0)
    T = lambda sp, dst, size=None: h.head(sp, dst, size)
    other = [s for s in (n + 1, n - 1, 0, n + 3, -1, -5, -1000) if s != n]
    sp = (lambda: r.randrange(60)) if h.py else (lambda: 0)
    if not h.dyn:
        for s in other:
            for name in ("OP_ZERO", "OP_EMPTY", "OP_CONST", "OP_VAR"):
                h.op(name, T(sp(), 2, s) + ([0] if name == "OP_VAR" else []), [1.5] if name in ("OP_CONST", "OP_VAR") else [])
                h.op("OP_FORGET", [2])
        for m in (n + 1, n - 1, 0, n + 4):
            if m >= 0 and m != n:
                h.op("OP_VARS", T(sp() if h.py else 0, 30), [h.val() for _ in range(m)])
    else:
        for s in (-1, -2, -7, -1000):
            for name in ("OP_ZERO", "OP_EMPTY", "OP_CONST", "OP_VAR"):
                h.op(name, T(sp(), 2, s) + ([0] if name == "OP_VAR" else []), [1.5] if name in ("OP_CONST", "OP_VAR") else [])
            h.op("OP_RESIZE", [0, 0, s])
        for s in list(range(0, n)) + [-1, -3]:
            h.op(r.choice(["OP_PADL", "OP_PADR"]), [sp(), 2, 0, s])
            h.op("OP_PADL", [sp(), 2, 0, s])
            h.op("OP_PADR", [sp(), 2, 0, s])
        # operands of different sizes in every operation
        for m in {n + 1, max(n - 1, 0), n + 3} - {n}:
            h.make(3, f=h.nz(), density=1.0, n=m)
            for name in ARITH2 + ["OP_ATAN2", "OP_HYPOT"]:
                for a, b in ((0, 3), (3, 0)):
                    h.op(name, [h.sp(), 4, a, b])
            for name in INPL:
                for a, b in ((0, 3), (3, 0)):
                    h.inpl(name, a, b)
            for t in ((0, 1, 3), (0, 3, 1), (3, 0, 1), (3, 3, 0), (0, 3, 3)):
                h.op("OP_HYPOT3", [h.sp(), 4] + list(t))
        # resize keeps data and size in step
        if h.driver != "py" or True:
            for s in (n + 2, 0, n, 1):
                h.op("OP_RESIZE", [0, 0, s])
                h.op("OP_INFO", [15, 0])
                h.op("OP_SETALL", [1, 0, datalen(o, s)], h.entries(s, density=1.0))
            h.op("OP_RESIZE", [0, 0, n])
            h.op("OP_SETALL", [1, 0, L], h.entries(n, density=1.0))
    # flat arrays of every length
    lens = range(0, 30) if h.dyn else [m for m in (0, 1, L - 1, L + 1, L + 2, datalen(o, n + 1), datalen(o, max(n - 1, 0)), datalen(3 - o, n)) if m != L and m >= 0]
    if h.py or h.dyn:
        for m in lens:
            for s in ([r.randrange(10)] if h.py else [0, 2] + ([1] if m <= 6 or m == 10 else [])):
                h.op("OP_DATA", T(0 if h.py and m == 1 else s, 5), [h.val() for _ in range(m)])  # the array library takes arrays of one entry for plain numbers
                h.op("OP_FORGET", [5])
    if h.dyn and not h.py or not h.dyn and not h.py:
        for m in range(0, 30):
            h.op("OP_SIZEOF", [0, o, 1, m])
        for m in list(range(0, 20)) + [46340, 65535, 92681, 2 ** 20 + 1, 2 ** 29]:
            h.op("OP_SIZEOF", [0, o, 0, m])
        for m in (rng_size(r) for _ in range(6)):
            for d in (0, 1, -1):
                h.op("OP_SIZEOF", [0, o, 1, datalen(o, m) + d])
        if h.driver != "noeigen" and h.dyn:
            for m in (L - 1, L + 1, 0, L + 5):
                h.op("OP_SETALL", [0, 0, m], [h.val() for _ in range(m)])
            if o == 2:
                for a, b in ((n + 1, n), (n, n + 1), (n + 1, n + 1), (n + 2, 1)):
                    h.op("OP_HM", [1, 0, r.randrange(2), a, b])
                h.op("OP_HM", [1, 0, 0, n, n])
    # matrices, gradients and increments of the wrong shape
    if h.driver != "noeigen" and (h.py or h.dyn):
        shapes = {(n + 1, n), (n, n + 1), (n - 1, n), (n, n - 1), (n + 1, n + 1), (n - 1, n - 1), (1, n), (n, 1), (1, n * n), (0, 0), (n + 2, n)} - {(n, n)}
        if o == 2:
            for a, b in sorted(shapes):
                if a >= 0 and b >= 0 and (a == 0) == (b == 0):
                    h.op("OP_SETHM", [sp() if h.py else 0, 0, a, b], [h.val() for _ in range(a * b)])
                    h.op("OP_ARRS", T(sp() % 10 if h.py else 0, 5) + [n, a, b], [h.val() for _ in range(1 + n + a * b)])
            for m in (n + 1, n - 1, 0, n + 2):
                if m >= 0 and m != n:
                    h.op("OP_ARRS", T(sp() % 10 if h.py else 0, 5) + [m, n, n], [h.val() for _ in range(1 + m + n * n)])
            for mode in (2, 3, 4, 5):
                h.op("OP_HM", [r.randrange(2), 0, mode])
        elif not h.dyn:
            for m in (n + 1, n - 1, 0, n + 2):
                if m >= 0 and m != n:
                    # numpy before 2 lets an array with one entry pass for a plain number: a list then
                    h.op("OP_GRAD", T((sp() % 10 if m != 1 else r.choice([0, 5])) if h.py else 0, 5), [h.val() for _ in range(1 + m)])
        for m in (n + 1, n - 1, 0, n + 2):
            if m >= 0 and m != n:
                h.op("OP_EVAL", [sp() % 10 if h.py else 0, 0], [h.val() for _ in range(m)])
    elif h.o == 2 and h.driver != "noeigen":
        for mode in (2, 3, 4, 5):
            h.op("OP_HM", [r.randrange(2), 0, mode])


def padding(h, rounds=2):
    r, n = h.rng, h.n
    for _ in range(rounds):
        for m in (n, n + 1, n + 2, n + 4):
            for op in ("OP_PADL", "OP_PADR"):
                h.make(0, f=r.choice([h.nz(), 0.0]), density=1.0)
                h.make(1, f=h.nz())
                h.op(op, [h.sp(), 2, 0, m])
                h.op(op, [h.sp(), 3, 1, m])
                full = 1 | 2 | (8 if h.o == 2 else 0) | 64
                h.op("OP_VIEWS", [full, 2])
                # the padded numbers behave like the originals
                f = r.choice(ARITH2 + ["OP_ATAN2", "OP_HYPOT"])
                h.bi(f, 4, 0, 1)
                h.bi(f, 5, 2, 3)
                h.op(op, [h.sp(), 4, 4, m])
                h.op(op, [h.sp(), 6, 3, m + 1])
                h.op("OP_PADR" if op == "OP_PADL" else "OP_PADL", [h.sp(), 6, 6, m + 3])
                g = r.choice(["OP_SIN", "OP_EXP", "OP_ATAN", "OP_TANH"])
                h.un(g, 5, 2)
                h.un("OP_RECIP", 5, 3)
                h.op("OP_SETG", [0, 2, r.randrange(m)], [h.val()]) if m else None
                h.live |= {2, 3, 4, 5, 6}
                h.forget(2, 3, 4, 5, 6)


def padding_pairs(h, sizes):
    """From every small size to many others, both sides."""
    r = h.rng
    for n in sizes:
        h.make(0, f=h.nz(), density=1.0, n=n)
        for m in sorted(set(range(n, 2 * n + 5)) | {3 * n + 1, 3 * n + 2, 4 * n + 1, 4 * n + 3} | {r.randint(n, 30)}):
            if m <= 30:
                for op in ("OP_PADL", "OP_PADR"):
                    h.op(op, [h.sp(), 1, 0, m])


def evaluation(h, rounds=3):
    r, n = h.rng, h.n
    for _ in range(rounds):
        if h.k == 0:
            h.make(0, density=r.choice([1.0, .5]))
            for d in ([h.val() for _ in range(n)], [0.0] * n, [1.0 if i == r.randrange(max(n, 1)) else 0.0 for i in range(n)], [r.uniform(-1, 1) if r.random() < .6 else 0.0 for _ in range(n)]):
                h.op("OP_EVAL", [r.randrange(10) if h.py else 0, 0], d)
            if n > 1:
                # two coordinates at a time isolate the mixed terms
                i, j = r.sample(range(n), 2)
                h.op("OP_EVAL", [0, 0], [1.0 if k in (i, j) else 0.0 for k in range(n)])
        else:
            h.make(0, density=1.0)
            for _ in range(4):
                names = r.sample(range(10), r.randint(0, 10)) if r.random() < .6 else r.sample(range(U + 1), r.randint(0, U + 1))
                h.op("OP_EVAL", [0, 0] + names, [h.val() for _ in names])
                h.op("OP_SGET", [0, 0])


SPECIAL = [float("inf"), float("-inf"), float("nan"), 0.0, -0.0, 1.0, -1.0, 2.5, 1e300, -1e-300]


def comparisons(h):
    r = h.rng
    vals = SPECIAL if h.scalar == 0 else ([0.0, -0.0, 1.0, -1.0, 2.5, 1024.0] + (SPECIAL[:3] if h.scalar == 1 else []))
    for _ in range(2):
        for x in vals:
            y = r.choice(vals + [x, x])
            h.make(0, f=x)
            h.make(1, f=y)
            h.op("OP_CMP", [0, 0, 1])
            h.op("OP_CMP", [0, 1, 0])
            h.op("OP_CMP", [0, 0, 0])
            for c in (x, y, r.choice(vals)):
                h.op("OP_CMPC", [r.randrange(3), 0], [c])
            h.un("OP_ABS", 2, 0)
            h.un("OP_NEG", 2, 0)
    # values that differ in the last place
    for x in (1.0, -3.5, 98304.0):
        h.make(0, f=x)
        h.op("OP_CONST" if h.k == 0 else "OP_SCONST", h.head(0, 1, h.n if h.dyn else None) if h.k == 0 else [0, 1, h.scalar],
             [x * (1 + (2 ** -14 if h.scalar == 1 else 2 ** -50))])
        h.op("OP_CMP", [0, 0, 1])
        h.op("OP_CMPC", [0, 1], [x])
        h.op("OP_CMPC", [0, 0], [x])


TEXTS = [0.0, -0.0, 1.0, -1.0, 0.5, 1234567.0, 123456.0, 999999.5, 1e-5, 1.5e-5, 0.0001, 1e100, -2.5e-300, 1 / 3, 2 / 3, 100000.0, 1e6, 12345678.9, 0.1, 1e15, 5e-324, 1.7e308, -9.999995,
         9.9999949, 3.0, -42.0, 0.00012345678, float("inf"), float("-inf"), float("nan"), 16777216.0, 65536.5, 2.5, 3.5]


def texts(h):
    r = h.rng
    for x in TEXTS + [r.uniform(-1, 1) * 10 ** r.randint(-12, 12) for _ in range(12)]:
        if h.k == 0:
            if h.scalar:
                x = h.round(x) if abs(x) < 1e30 and (x == 0 or abs(x) > 1e-30) else 1.5
            h.make(0, f=x)
            h.op("OP_TEXT", [r.randrange(3) if h.py else r.randrange(2), 0])
        else:
            names = h.names()
            ds = [h.round(r.choice([h.val(), -h.val(), r.choice(TEXTS[:20]) if not h.scalar else 1.0])) for _ in names]
            if h.scalar:
                x = h.round(x) if abs(x) < 1e30 and (x == 0 or abs(x) > 1e-30) else 1.5
                if not math.isfinite(x):
                    x = 1.5
            h.op("OP_SDATA", [0, 0, h.scalar] + names, [x] + ds)
            h.live.add(0)
            h.op("OP_TEXT", [r.randrange(3) if h.py else r.randrange(2), 0])


def copies(h):
    """Copies are equal and independent in both directions; no operation touches its operands or shares storage with its result."""
    r = h.rng
    n = h.n
    for s in range(7 if h.py else 5):
        h.make(0, density=1.0)
        h.make(1)
        h.op("OP_COPY", [s, 1, 0])
        h.op("OP_INFO", [15, 1]) if h.k == 0 else h.op("OP_SGET", [0, 1])
        for t in (0, 1):
            u = 1 - t
            if h.k == 0:
                h.op("OP_SETF", [0, t], [h.nz()])
                if n:
                    h.op("OP_SETG", [0, u, r.randrange(n)], [h.nz()])
                h.op("OP_SETDATA", [0, t, r.randrange(datalen(h.o, n))], [h.nz()])
                if h.o == 2 and n:
                    h.op("OP_SETHIJ", [0, u, r.randrange(n), r.randrange(n)], [h.nz()])
                if h.o == 2 and n and h.driver != "noeigen":
                    h.op("OP_SETHM", [0, t, n, n], [h.nz() for _ in range(n * n)])
                if h.dyn and r.random() < .5:
                    h.op("OP_RESIZE", [0, t, n + 1])
                    h.op("OP_RESIZE", [0, t, n])
                    h.op("OP_SETALL", [1, t, datalen(h.o, n)], h.entries(n, f=h.nz()))
            h.inpl(r.choice(INPL), t, t)
            h.inpl(r.choice(INPL), t, u) if r.random() < .5 else None
            h.inplc("OP_IMULC", u, h.nz())
            h.make(t, f=h.nz(), density=1.0)
            h.op("OP_COPY", [s, u, t])
        # copying special contents
        h.make(0, f=r.choice([float("inf"), -0.0, float("nan")] if h.scalar < 2 else [-0.0]))
        h.op("OP_COPY", [s, 2, 0])
        h.live.add(2)
        h.op("OP_COPY", [s, 0, 0])
    # results do not share storage with operands: write into the result, then into the operand
    for op, D in [("OP_ADDC", [0.0]), ("OP_MULC", [1.0]), ("OP_SUBC", [0.0]), ("OP_DIVC", [1.0]), ("OP_NEG", []), ("OP_ABS", []), ("OP_POW", [1.0]), ("OP_CADD", [0.0]), ("OP_CMUL", [1.0])]:
        h.make(0, f=abs(h.nz()), density=1.0)
        h.un(op, 1, 0, D)
        if h.k == 0:
            h.op("OP_SETF", [0, 1], [h.nz()])
            h.op("OP_SETDATA", [0, 0, datalen(h.o, n) - 1], [h.nz()])
        h.inpl("OP_IMUL", 1, 1)
        h.inpl("OP_IADD", 0, 0)
    if h.k == 0 and h.dyn:
        for op in ("OP_PADL", "OP_PADR"):
            h.make(0, f=h.nz(), density=1.0)
            h.op(op, [0, 1, 0, n])
            h.op("OP_SETF", [0, 1], [h.nz()])
            h.op("OP_SETDATA", [0, 0, datalen(h.o, n) - 1], [h.nz()])
            h.inpl("OP_IMUL", 1, 1)


def allops_untouched(h, count=40):
    """Every operation once, with bystanders and operands observed."""
    r = h.rng
    h.make(0, f=0.6, density=1.0)
    h.make(1, f=0.7, density=1.0)
    for op in ["OP_" + x for x in "SQRT CBRT RECIP COS SIN TAN ACOS ASIN ATAN COSH SINH TANH ASINH ATANH EXP LOG LOG2 LOG10 NEG ABS".split()]:
        h.un(op, 2, r.choice([0, 1]))
    h.un("OP_CADD", 3, 0, [1.0])
    h.un("OP_ACOSH", 2, 3)
    h.un("OP_POW", 2, 0, [2.5])
    h.un("OP_POW", 2, 0, [1.0])
    h.un("OP_LOGB", 2, 0, [3.0])
    for op in ARITHC:
        h.un(op, 2, 0, [1.5])
    for op in ARITH2 + ["OP_ATAN2", "OP_HYPOT"]:
        h.bi(op, 2, 0, 1)
        h.bi(op, 2, 1, 1)
    h.tri(2, 0, 1, 3)
    h.op("OP_CMP", [0, 0, 1])
    h.op("OP_CMPC", [0, 0], [0.5])
    if h.k == 0:
        h.op("OP_VIEWS", [1 | 2 | (8 if h.o == 2 else 0) | 64, 0])
        if h.driver != "noeigen":
            h.op("OP_EVAL", [0, 0], [h.val() for _ in range(h.n)])
    else:
        h.op("OP_SGET", [0, 0])
        h.op("OP_EVAL", [0, 0, 1, 9], [h.val(), h.val()])
    if h.scalar < 2:
        h.op("OP_TEXT", [0, 0])


def arrays(h, rounds=1):
    """Array and matrix computations with numbers (and plain numbers, in Python) as entries."""
    r, n = h.rng, h.n
    full = h.py or h.scalar == 0 and h.sn in (2, -1)          # all array functions are compiled for these types only
    k1 = ["OP_NEG", "OP_SQRT", "OP_EXP", "OP_SIN"] + (list(POINTS) + ["OP_ABS"] if full else [])
    if not h.py and h.dyn and full:
        k1.remove("OP_RECIP")                                 # Eigen writes Scalar(1) / x, and Scalar(1) has size 0
    kc = ["OP_MULC", "OP_CMUL", "OP_DIVC"] + (["OP_ADDC", "OP_SUBC", "OP_CADD", "OP_CSUB", "OP_CDIV", "OP_POW"] if full else [])
    k2 = ARITH2 + ["OP_ATAN2", "OP_HYPOT"]
    sp = lambda: r.randrange(20) if h.py else r.randrange(3)

    def fill(cnt, pos=None):
        for i in range(cnt):
            h.make(i, f=h.round(r.uniform(.1, .9)) if pos else None)
    for _ in range(rounds):
        for op in r.sample(k1, min(len(k1), 8)) + ["OP_SQRT"]:
            cnt = r.randint(1, 4)
            for i in range(cnt):
                h.make(i, f=h.round(r.choice(POINTS[op]) if op in POINTS else h.nz()))
            # Eigen writes Scalar(c) * log(x)
            h.op("OP_AMAP", [1 if op == "OP_LOG2" and h.dyn and not h.py else sp(), OPS[op], cnt] + [30 + i for i in range(cnt)] + list(range(cnt)))
            drop(h, cnt)
        for op in r.sample(kc, min(len(kc), 6)):
            cnt = r.randint(1, 4)
            fill(cnt, True)
            h.op("OP_AMAP", [sp(), OPS[op], cnt] + [30 + i for i in range(cnt)] + list(range(cnt)), [h.nz() if op != "OP_POW" else r.choice([2.0, 3.0, .5])])
            drop(h, cnt)
        for op in k2 + ARITH2:
            cnt = r.randint(1, 3)
            for i in range(cnt):
                h.make(i)
                h.make(8 + i, f=h.nz())
            D, left, right = [], lambda x: x, lambda x: x
            if r.random() < .5 and op not in ("OP_ATAN2", "OP_HYPOT"):
                D = [h.nz(), h.nz()]
                if h.py:
                    right = lambda x: x if x == 8 or r.random() < .6 else r.choice([1000, 1001])
                elif r.random() < .5:
                    right = lambda x: 1000 + x % 2
                else:
                    left = lambda x: 1000 + x % 2
            elif r.random() < .4:
                right = lambda x: 8
            h.op("OP_AZIP", [sp(), OPS[op], cnt] + [30 + i for i in range(cnt)] + [left(i) for i in range(cnt)] + [right(8 + i) for i in range(cnt)], D)
            drop(h, cnt)
            h.forget(8, 9, 10)
        for m, k, q in r.sample([(2, 2, 2), (1, 3, 1), (2, 3, 1), (1, 2, 2), (2, 1, 2), (3, 2, 1), (1, 4, 1), (1, 1, 1)], 4):
            fill(m * k)
            for i in range(k * q):
                h.make(10 + i)
            D = [h.nz(), h.nz(), h.nz()]
            ra, rb = list(range(m * k)), [10 + i for i in range(k * q)]
            if h.py:
                ra = [r.choice([1000, 1001]) if i and r.random() < .2 else i for i in ra]
                rb = [r.choice([1000, 1002]) if r.random() < .2 else x for x in rb]
                if len([x for x in ra + rb if x < 1000]) == 0:
                    ra[0] = 0
                # each result must depend on at least one number
                if any(all(x >= 1000 for x in ra[i * k:(i + 1) * k] + [rb[t * q + j] for t in range(k)]) for i in range(m) for j in range(q)):
                    ra = list(range(m * k))
            elif r.random() < .3:
                ra = [r.randrange(1000, 1003) for _ in ra]
            elif r.random() < .4:
                rb = [r.randrange(1000, 1003) for _ in rb]
            h.op("OP_AMATMUL", [sp(), m, k, q] + [30 + i for i in range(m * q)] + ra + rb, D)
            drop(h, m * q)
            h.forget(*range(10, 10 + k * q))
        for cnt in r.sample([1, 2, 3, 5], 2):
            fill(cnt)
            h.op("OP_APROD", [sp(), cnt, 30] + list(range(cnt)))
            drop(h, 1)
            h.forget(*range(cnt))
        for k in (2, 3):
            fill(k * k)
            h.op("OP_ADET", [sp(), k, 30] + list(range(k * k)))
            drop(h, 1)
            h.forget(*range(k * k))
        for cnt in r.sample([1, 2, 3, 5, 9], 3):
            fill(cnt)
            h.op("OP_ASUM", [sp(), cnt, 30] + list(range(cnt)))
            drop(h, 1)
            h.forget(*range(cnt))
        fill(3)
        for i in range(3):
            h.make(10 + i)
        h.op("OP_ACROSS", [sp(), 30, 31, 32, 0, 1, 2, 10, 11, 12])
        drop(h, 3)
        h.forget(10, 11, 12)
        for cnt in (1, 3):
            fill(cnt)
            h.make(0, f=h.nz())
            h.op("OP_ANORM", [sp(), cnt, 30] + list(range(cnt)))
            drop(h, 1)
        if h.py:
            fill(3)
            h.make(3)
            h.op("OP_ACMP", [0, 2, 0, 1, 2, 3])
            for shape, refs in (((), [0]), ((3,), [0, 1, 2]), ((2, 2), [0, 1, 2, 3]), ((1, 3), [2, 1, 0]), ((2, 1, 2), [3, 2, 1, 0]), ((1,), [1]), ((2,), [0, 0])):
                h.op("OP_MODF", [sp(), len(shape)] + list(shape) + refs)
                if h.k == 0:
                    h.op("OP_MODD", [sp(), len(shape)] + list(shape) + refs)
                    if h.o == 2:
                        h.op("OP_MODDD", [sp(), len(shape)] + list(shape) + refs)
            D = [h.nz(), r.choice([1e-9, 1e300, -2.0 ** -80, 12345678.9012345, float("inf"), float("nan")]), r.choice([0.25, h.val(), -1e17])]
            for k in (0, 1, 2, 3):
                if r.random() < .3:
                    h.make(k, f=r.choice([1e-9, -1e-300, 1e300, 123456.7890123, 0.0]))
            for shape, refs in (((), [1000]), ((2,), [1000, 1]), ((3,), [0, 1001, 2]), ((2, 2), [1000, 1001, 1002, 1]), ((3,), [1000, 1001, 1002]), ((2,), [1001, 1002])):
                h.op("OP_MODF", [sp(), len(shape)] + list(shape) + refs, D)
                if all(x >= 1000 for x in refs):
                    h.op("OP_MODD", [sp(), len(shape)] + list(shape) + refs, D)
                    h.op("OP_MODDD", [sp(), len(shape)] + list(shape) + refs, D)
        h.forget(*range(0, 16))


def drop(h, cnt):
    for i in range(cnt):
        h.op("OP_FORGET", [30 + i])


# ---------------------------------------------------------------- programs

SAFE1 = ["OP_SIN", "OP_COS", "OP_ATAN", "OP_TANH", "OP_ASINH", "OP_NEG"]


def program(h, steps, vals, perm=None):
    """A random program on seeded variables; ends by asking for the derivatives of the composed function.
    Register i starts as variable perm[i]. The values are followed so that functions stay inside their domains.
    The program depends on the random numbers and values only, not on the type."""
    r, n = h.rng, h.n
    val = {}
    u = r.random() < .5
    if h.k == 0:
        if u and perm is None:
            h.op("OP_VARS", h.head(0, 0), vals)
        else:
            for i, x in enumerate(vals):
                h.op("OP_VAR", h.head(h.sp() % 2 if h.py else 0, i, n if h.dyn or h.srng.random() < .5 else None) + [i if perm is None else perm[i]], [x])
    else:
        for i, x in enumerate(vals):
            h.op("OP_SVAR", [0, i, h.scalar, i if perm is None else perm[i]], [x])
    for i, x in enumerate(vals):
        val[i] = x
        h.live.add(i)
    regs = 4 + len(vals)

    def ok(x):
        return math.isfinite(x) and (abs(x) < 30)

    def far(x, e=.05):
        return abs(x) > e
    steps_done = 0
    while steps_done < steps:
        steps_done += 1
        a, b, c = (r.choice(list(val)) for _ in range(3))
        d = r.randrange(regs)
        x, y, z = val[a], val[b], val[c]
        q = r.randrange(14)
        k = h.round(r.choice([h.nz(), 2.0, -1.0, .5]))
        if abs(k) > 10:
            k = .75
        if q < 3:
            f = r.choice(ARITH2)
            v = x + y if f == "OP_ADD" else x - y if f == "OP_SUB" else x * y if f == "OP_MUL" else (x / y if far(y, .2) else math.inf)
            if ok(v):
                h.bi(f, d, a, b)
                val[d] = v
        elif q < 5:
            f = r.choice(ARITHC)
            v = {"OP_ADDC": lambda: x + k, "OP_SUBC": lambda: x - k, "OP_MULC": lambda: x * k, "OP_DIVC": lambda: x / k, "OP_CADD": lambda: k + x, "OP_CSUB": lambda: k - x,
                 "OP_CMUL": lambda: k * x, "OP_CDIV": lambda: k / x if far(x, .2) else math.inf}[f]()
            if ok(v):
                h.un(f, d, a, [k])
                val[d] = v
        elif q < 8:
            fs = {"OP_SIN": math.sin, "OP_COS": math.cos, "OP_ATAN": math.atan, "OP_TANH": math.tanh, "OP_ASINH": math.asinh, "OP_NEG": lambda t: -t}
            if abs(x) < 2.5:
                fs.update({"OP_EXP": math.exp, "OP_SINH": math.sinh, "OP_COSH": math.cosh})
            if x > .3:
                fs.update({"OP_SQRT": math.sqrt, "OP_LOG": math.log, "OP_LOG2": math.log2, "OP_LOG10": math.log10})
            if abs(x) > .3:
                fs.update({"OP_RECIP": lambda t: 1 / t, "OP_CBRT": lambda t: math.copysign(abs(t) ** (1 / 3), t), "OP_ABS": abs})
            if abs(x) < .8:
                fs.update({"OP_ASIN": math.asin, "OP_ACOS": math.acos, "OP_ATANH": math.atanh, "OP_TAN": math.tan})
            if x > 1.3:
                fs.update({"OP_ACOSH": math.acosh})
            f = r.choice(list(fs))
            if ok(fs[f](x)):
                h.un(f, d, a)
                val[d] = fs[f](x)
        elif q == 8:
            e = r.choice([2.0, 3.0, 0.0, 1.0, -1.0, 4.0] + ([.5, 2.5, -1.5] if x > .3 else []))
            if (abs(x) > .3 or e >= 0) and ok(x ** e):
                h.un("OP_POW", d, a, [e])
                val[d] = x ** e
        elif q == 9:
            if math.hypot(x, y) > .3:
                f = r.choice(["OP_HYPOT", "OP_ATAN2"])
                if f == "OP_HYPOT" or not (abs(x) < .05 and y < 0):
                    h.bi(f, d, a, b)
                    val[d] = math.hypot(x, y) if f == "OP_HYPOT" else math.atan2(x, y)
        elif q == 10:
            if math.hypot(x, y, z) > .3:
                h.tri(d, a, b, c)
                val[d] = math.hypot(x, y, z)
        elif q == 11:
            f = r.choice(INPL)
            v = x + y if f == "OP_IADD" else x - y if f == "OP_ISUB" else x * y if f == "OP_IMUL" else (x / y if far(y, .2) else math.inf)
            if ok(v):
                h.inpl(f, a, b)
                val[a] = v
        elif q == 12:
            f = r.choice(INPLC)
            v = {"OP_IADDC": x + k, "OP_ISUBC": x - k, "OP_IMULC": x * k, "OP_IDIVC": x / k}[f]
            if ok(v):
                h.inplc(f, a, k)
                val[a] = v
        elif r.random() < .7:
            if h.py and h.k == 1:
                h.un("OP_ADDC", d, a, [0.0])                  # sparse numbers have no copy in Python
            else:
                h.op("OP_COPY", [h.srng.randrange(6), d, a])
            h.live.add(d)
            val[d] = x
        else:
            if h.k == 1:
                h.op("OP_SCONST", [0, d, h.scalar], [k])
            else:
                h.op("OP_CONST", h.head(0, d, n if h.dyn else None), [k])
            h.live.add(d)
            val[d] = k
    for a in r.sample(list(val), min(3, len(val))):
        h.op("OP_END", [0, a])
