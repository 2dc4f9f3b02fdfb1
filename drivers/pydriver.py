"""Register machine over the Python module of HyperJet; same scripts and records as the C++ driver.

pydriver.py SCRIPT OUT [FIRST]      (PYTHONPATH names the folder with the module and the generated ops.py)
"""
import copy, functools, math, operator, pickle, re, struct, sys
import numpy as np
import hyperjet as hj
import hj_ops as K

NAMES = ["x", "y", "b_1", "alpha", "Z2", "\xe9 q", "x1", "X", "", "x10", "x11", "beta", "b", "b_", "p0", "p1", "longer_name_of_variable_0123456789", "A", "-y", "1", "\u03b1", "absent"]
BIAS = 1 << 32


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", float(x)))[0]


def biased(k):
    return BIAS + int(k)


class Unsupported(BaseException):
    pass


def name_of(sc, o, sn):
    return ("D" * o) + (str(sn) if sn >= 0 else "") + "Scalar"


def sparse(x):
    return isinstance(x, hj.SScalar)


def layouts(values, shape, sp):
    """The same numbers handed over in different ways: list, array, strided view, Fortran order, read only."""
    a = np.array(values, dtype=float).reshape(shape)
    sp %= 5
    if sp == 0:
        return a.tolist()
    if sp == 1:
        return a
    if sp == 2:
        b = np.full(tuple(2 * s + 1 for s in shape), 7.25)
        v = b[tuple(slice(0, 2 * s, 2) for s in shape)]
        v[...] = a
        return v
    if sp == 3:
        return np.asfortranarray(a)
    a.setflags(write=False)
    return a


def pick(sp, *choices):
    return choices[(sp % 10) % len(choices)]


ONE_ARG = {
    K.OP_NEG: (lambda a: -a, operator.neg, np.negative),
    K.OP_ABS: (abs, lambda a: a.abs(), np.absolute, lambda a: a.__abs__(), np.abs),
    K.OP_SQRT: (lambda a: a.sqrt(), np.sqrt),
    K.OP_CBRT: (lambda a: a.cbrt(), np.cbrt),
    K.OP_RECIP: (lambda a: a.reciprocal(), np.reciprocal),
    K.OP_COS: (lambda a: a.cos(), np.cos),
    K.OP_SIN: (lambda a: a.sin(), np.sin),
    K.OP_TAN: (lambda a: a.tan(), np.tan),
    K.OP_ACOS: (lambda a: a.acos(), np.arccos, lambda a: a.arccos()),
    K.OP_ASIN: (lambda a: a.asin(), np.arcsin, lambda a: a.arcsin()),
    K.OP_ATAN: (lambda a: a.atan(), np.arctan, lambda a: a.arctan()),
    K.OP_COSH: (lambda a: a.cosh(), np.cosh),
    K.OP_SINH: (lambda a: a.sinh(), np.sinh),
    K.OP_TANH: (lambda a: a.tanh(), np.tanh),
    K.OP_ACOSH: (lambda a: a.acosh(), np.arccosh, lambda a: a.arccosh()),
    K.OP_ASINH: (lambda a: a.asinh(), np.arcsinh, lambda a: a.arcsinh()),
    K.OP_ATANH: (lambda a: a.atanh(), np.arctanh, lambda a: a.arctanh()),
    K.OP_EXP: (lambda a: a.exp(), np.exp),
    K.OP_LOG: (lambda a: a.log(), np.log),
    K.OP_LOG2: (lambda a: a.log2(), np.log2),
    K.OP_LOG10: (lambda a: a.log10(), np.log10),
}


def num(c, sp):
    """A plain number as float, int (if it is one) or array-library scalar."""
    if sp % 3 == 1 and c == int(c if np.isfinite(c) else 0.5) and abs(c) < 2**53 and bits(c) != 1 << 63:
        return int(c)
    if sp % 3 == 2:
        return np.float64(c)
    return c


ONE_CONST = {
    K.OP_ADDC: (lambda a, c: a + c, np.add, operator.add),
    K.OP_SUBC: (lambda a, c: a - c, np.subtract, operator.sub),
    K.OP_MULC: (lambda a, c: a * c, np.multiply, operator.mul),
    K.OP_DIVC: (lambda a, c: a / c, np.true_divide, operator.truediv),
    K.OP_CADD: (lambda a, c: c + a, lambda a, c: np.add(c, a)),
    K.OP_CSUB: (lambda a, c: c - a, lambda a, c: np.subtract(c, a)),
    K.OP_CMUL: (lambda a, c: c * a, lambda a, c: np.multiply(c, a)),
    K.OP_CDIV: (lambda a, c: c / a, lambda a, c: np.true_divide(c, a)),
    K.OP_POW: (lambda a, c: a ** c, pow, np.power, lambda a, c: a.__pow__(c)),
    K.OP_LOGB: (lambda a, c: a.log(c), lambda a, c: a.log(base=c)),
}
TWO_ARG = {
    K.OP_ADD: (lambda a, b: a + b, np.add, operator.add),
    K.OP_SUB: (lambda a, b: a - b, np.subtract, operator.sub),
    K.OP_MUL: (lambda a, b: a * b, np.multiply, operator.mul),
    K.OP_DIV: (lambda a, b: a / b, np.true_divide, operator.truediv),
    K.OP_ATAN2: (lambda a, b: a.atan2(b), np.arctan2, lambda a, b: a.arctan2(b), lambda a, b: type(a).atan2(a, b)),
    K.OP_HYPOT: (lambda a, b: a.hypot(b), np.hypot, lambda a, b: type(a).hypot(a, b),
                 lambda a, b: a.hypot(b) if sparse(a) else hj.hypot(a, b)),
}
IN_PLACE = {K.OP_IADD: operator.iadd, K.OP_ISUB: operator.isub, K.OP_IMUL: operator.imul, K.OP_IDIV: operator.itruediv}
IN_PLACE_C = {K.OP_IADDC: operator.iadd, K.OP_ISUBC: operator.isub, K.OP_IMULC: operator.imul, K.OP_IDIVC: operator.itruediv}
COPIES = (copy.copy, copy.deepcopy, lambda a: pickle.loads(pickle.dumps(a, 2)), lambda a: copy.deepcopy([a, a])[1],
          lambda a: pickle.loads(pickle.dumps([a], pickle.HIGHEST_PROTOCOL))[0], lambda a: a.__copy__(),
          lambda a: copy.deepcopy({"k": (a, 1)})["k"][0])
MODES = ["full", "zeros", "upper", "", "Full", "full "]
SIX = (operator.eq, operator.ne, operator.lt, operator.gt, operator.le, operator.ge)


class Machine:
    def __init__(self):
        self.X = {}
        self.V = {}

    def observe(self, O):
        n = 0
        for r, a in self.X.items():
            n += 1
            if sparse(a):
                O += [r | 1 << 16 | 1 << 32, biased(a.size), len(NAMES), bits(a.f)] + [bits(a.d(s)) for s in NAMES[:-1]]
            else:
                m = re.fullmatch(r"(D+)(\d*)Scalar", type(a).__name__)
                o, sn = len(m.group(1)), int(m.group(2) or -1)
                data = a.data
                O += [r | o << 32 | (sn + 1) << 40, biased(a.size), len(data)]
                O += struct.unpack("<%dQ" % len(data), np.ascontiguousarray(data, dtype=float).tobytes())
        for v, a in self.V.items():
            n += 1
            O += [v | 2 << 16, biased(len(a)), len(a)]
            O += struct.unpack("<%dQ" % len(a), np.ascontiguousarray(a, dtype=float).tobytes())
        return n

    def one(self, fs, sp, *args):
        r = pick(sp, *fs)(*args)
        if isinstance(r, np.ndarray) and r.shape == ():
            r = r.item()
        return r

    def run(self, op, I, D, R):
        X, V = self.X, self.V
        sp = I[0] if I else 0
        if op in ONE_ARG:
            X[I[1]] = self.one(ONE_ARG[op], sp, X[I[2]])
        elif op in ONE_CONST:
            X[I[1]] = self.one(ONE_CONST[op], sp, X[I[2]], num(D[0], sp // 10))
        elif op in TWO_ARG:
            X[I[1]] = self.one(TWO_ARG[op], sp, X[I[2]], X[I[3]])
        elif op == K.OP_HYPOT3:
            a, b, c = X[I[2]], X[I[3]], X[I[4]]
            fs = [lambda: a.hypot(b, c), lambda: type(a).hypot(a, b, c), lambda: hj.hypot(a, b, c)]
            X[I[1]] = fs[sp % (2 if sparse(a) else 3)]()
        elif op in IN_PLACE:
            X[I[1]] = IN_PLACE[op](X[I[1]], X[I[2]])
        elif K.OP_IADDE <= op <= K.OP_IDIVE:
            b, e = X[I[2]], I[3]
            v = b.f if e == 0 and sp % 2 else float(b.g[e - 1]) if sp % 2 and e <= b.size else b.data[e]
            X[I[1]] = IN_PLACE_C[op - 4](X[I[1]], v)
        elif op in IN_PLACE_C:
            X[I[1]] = IN_PLACE_C[op](X[I[1]], num(D[0], sp // 10))
        elif op == K.OP_RESET:
            X.clear()
            V.clear()
        elif op == K.OP_FORGET:
            X.pop(I[0], None)
            V.pop(I[0], None)
        elif op == K.OP_BIND:
            X[I[1]] = X[I[2]]
        elif op == K.OP_COPY:
            X[I[1]] = pick(sp, *COPIES)(X[I[2]])
        elif 10 <= op <= 18:
            self.construct(op, I, D)
        elif op == K.OP_MODVARS:
            vals = layouts(D, (len(D),), sp)
            xs = hj.variables(vals) if I[2] == 2 and sp % 2 else pick(sp, lambda: hj.variables(vals, I[2]), lambda: hj.variables(values=vals, order=I[2]))()
            if I[2] == 0:
                for x in xs:
                    if type(x) is not float:
                        raise SystemExit("not a plain float")
                R += [bits(x) for x in xs]
            else:
                for k, x in enumerate(xs):
                    X[I[1] + k] = x
        elif op == K.OP_SCONST:
            X[I[1]] = pick(sp, hj.SScalar.constant, hj.SScalar, lambda f: hj.SScalar(f=f))(D[0])
        elif op == K.OP_SVAR:
            X[I[1]] = pick(sp, lambda n, f: hj.SScalar.variable(n, f), lambda n, f: hj.SScalar.variable(name=n, value=f))(NAMES[I[3]], D[0])
        elif op == K.OP_SDATA:
            d = {NAMES[k]: D[1 + t] for t, k in enumerate(I[3:])}
            X[I[1]] = pick(sp, lambda: hj.SScalar(D[0], d), lambda: hj.SScalar(f=D[0], d=d))()
        elif op in (K.OP_SETF, K.OP_SETG, K.OP_SETHIJ, K.OP_SETHM, K.OP_SETDATA, K.OP_SETALL, K.OP_RESIZE, K.OP_HOLD, K.OP_HOLDSET):
            self.write(op, I, D)
        elif op == K.OP_PADL:
            X[I[1]] = pick(sp, lambda: X[I[2]].pad_left(I[3]), lambda: X[I[2]].pad_left(new_size=I[3]))()
        elif op == K.OP_PADR:
            X[I[1]] = pick(sp, lambda: X[I[2]].pad_right(I[3]), lambda: X[I[2]].pad_right(new_size=I[3]))()
        elif 140 <= op <= 151:
            self.arrays(op, I, D, R)
        elif op == K.OP_END:
            pass
        else:
            self.read(op, I, D, R)

    def construct(self, op, I, D):
        X = self.X
        sp, dst, n = I[0], I[1], I[2]
        T = getattr(hj, name_of(I[4], I[5], I[6]))
        given = n != K.ABSENT
        if op == K.OP_ZERO:
            X[dst] = pick(sp, lambda: T.zero(n), lambda: T.zero(size=n))() if given else T.zero()
        elif op == K.OP_DEFAULT:
            X[dst] = T()
        elif op == K.OP_EMPTY:
            X[dst] = T.empty(n) if given else T.empty()
        elif op == K.OP_CONST:
            f = num(D[0], sp // 10)
            X[dst] = pick(sp, lambda: T.constant(f, n), lambda: T(f, n), lambda: T(f=f, size=n), lambda: T.constant(f=f, size=n))() if given \
                else pick(sp, lambda: T.constant(f), lambda: T(f), lambda: T(f=f))()
        elif op == K.OP_VAR:
            i, f = I[7], num(D[0], sp // 10)
            X[dst] = pick(sp, lambda: T.variable(i, f, n), lambda: T.variable(i=i, f=f, size=n))() if given \
                else pick(sp, lambda: T.variable(i, f), lambda: T.variable(i=i, f=f))()
        elif op == K.OP_VARS:
            xs = pick(sp, T.variables, lambda v: T.variables(values=v))(pick(sp // 2, list(D), tuple(D), np.array(D)))
            if len(xs) != len(D):
                raise SystemExit("wrong number of variables")
            for k, x in enumerate(xs):
                X[dst + k] = x
        elif op == K.OP_DATA:
            v = layouts(D, (len(D),), sp)
            X[dst] = pick(sp // 5, T, lambda d: T(data=d))(v)
        elif op == K.OP_GRAD:
            v = layouts(D[1:], (len(D) - 1,), sp)
            X[dst] = pick(sp // 5, lambda: T(D[0], v), lambda: T(f=D[0], g=v))()
        elif op == K.OP_ARRS:
            m, r, c = I[7:10]
            g = layouts(D[1:1 + m], (m,), sp)
            h = layouts(D[1 + m:], (r, c), sp if r * c or sp % 5 else 1)
            X[dst] = pick(sp // 5, lambda: T(D[0], g, h), lambda: T(f=D[0], g=g, hm=h))()

    def write(self, op, I, D):
        X, V = self.X, self.V
        sp = I[0]
        a = None if op == K.OP_HOLDSET or op == K.OP_HOLD else X[I[1]]
        if op == K.OP_SETF:
            a.f = num(D[0], sp)
        elif op == K.OP_SETG:
            a.g[I[2]] = D[0]
        elif op == K.OP_SETHIJ:
            pick(sp, lambda: a.set_h(I[2], I[3], D[0]), lambda: a.set_h(row=I[2], col=I[3], value=D[0]))()
        elif op == K.OP_SETHM:
            m = layouts(D, (I[2], I[3]), sp if len(D) or sp % 5 else 1)
            pick(sp // 5, lambda: a.set_hm(m), lambda: a.set_hm(value=m))()
        elif op == K.OP_SETDATA:
            a.data[I[2]] = D[0]
        elif op == K.OP_SETALL:
            a.data[:] = D
        elif op == K.OP_RESIZE:
            a.resize(I[2])
        elif op == K.OP_HOLD:
            V[I[1]] = X[I[2]].data if I[0] == 0 else X[I[2]].g
        elif op == K.OP_HOLDSET:
            V[I[1]][I[2]] = D[0]

    def read(self, op, I, D, R):
        X = self.X
        sp, a = I[0], X[I[1]]
        if op == K.OP_VIEWS:
            n = a.size
            if sp & 1:
                R += [bits(a.f)]
            if sp & 2:
                g = a.g
                R += [bits(x) for x in g]
            if sp & 8:
                R += [bits(a.h(row=i, col=j) if (i + j) % 2 else a.h(i, j)) for i in range(n) for j in range(n)]
            for b, modes in ((16, (lambda: a.hm(), lambda: a.hm("full"))), (32, (lambda: a.hm("zeros"), lambda: a.hm(mode="zeros")))):
                if sp & b:
                    for f in modes:
                        m = np.asarray(f())
                        if m.shape != (n, n):
                            R.append(1)
                    R += [bits(x) for x in m.reshape(-1)]
            if sp & 64:
                R += [bits(x) for x in a.data]
            if sp & 4 or sp & 128:
                raise Unsupported(op)
        elif op == K.OP_INFO:
            T = type(a)
            l = [a.order, a.is_dynamic, a.size, len(a.data)]
            if [T.order, T.is_dynamic, len(a)] != l[:3] or (l[1] is not True and l[1] is not False):
                R.append(0)
            R += [biased(x) for i, x in enumerate(l) if sp >> i & 1]
        elif op == K.OP_TEXT:
            R += list(pick(sp, repr, str, "{}".format)(a).encode())
        elif op == K.OP_EVAL:
            if sparse(a):
                R.append(bits(a.eval({NAMES[k]: D[t] for t, k in enumerate(I[2:])})))
            else:
                v = layouts(D, (len(D),), sp)
                R.append(bits(pick(sp // 5, lambda: a.eval(v), lambda: a.eval(d=v))()))
        elif op == K.OP_SGET:
            if len(a) != a.size:
                R.append(0)
            R += [biased(a.size), bits(a.f)] + [bits(a.d(s) if i % 2 else a.d(variable=s)) for i, s in enumerate(NAMES)] + [biased(a.size)]
        elif op == K.OP_CMP:
            b = X[I[2]]
            R += [biased(truth(f(a, b))) for f in SIX]
        elif op == K.OP_CMPC:
            c = num(D[0], sp if np.isfinite(D[0]) else 0)
            R += [biased(truth(f(a, c))) for f in SIX] + [biased(truth(f(c, a))) for f in SIX]
        elif op == K.OP_HM:
            m = np.asarray(pick(sp, lambda s: a.hm(s), lambda s: a.hm(mode=s))(MODES[I[2]]))
            R += [bits(x) for x in m.reshape(-1)]
        else:
            raise Unsupported(op)

    def arr(self, refs, D, shape):
        a = np.empty(len(refs), dtype=object)
        for t, r in enumerate(refs):
            a[t] = D[r - 1000] if r >= 1000 else self.X[r]
        return a.reshape(shape)

    def store(self, dsts, a):
        a = np.asarray(a)
        a = a.reshape(-1)
        if len(a) != len(dsts):
            raise SystemExit("wrong shape")
        for t, r in enumerate(dsts):
            self.X[r] = a[t]

    def arrays(self, op, I, D, R):
        sp = I[0]
        if op == K.OP_AMAP:
            n = I[2]
            a = self.arr(I[3 + n:], D, (n,) if sp % 2 or n % 2 else (2, n // 2))
            f = I[1]
            if f in ONE_CONST:
                # array op number in the spellings the array library offers
                r = pick(1, *ONE_CONST[f])(a, D[0]) if sp % 2 and f not in (K.OP_LOGB, K.OP_POW) else {
                    K.OP_ADDC: lambda: a + D[0], K.OP_SUBC: lambda: a - D[0], K.OP_MULC: lambda: a * D[0], K.OP_DIVC: lambda: a / D[0],
                    K.OP_CADD: lambda: D[0] + a, K.OP_CSUB: lambda: D[0] - a, K.OP_CMUL: lambda: D[0] * a, K.OP_CDIV: lambda: D[0] / a,
                    K.OP_POW: lambda: a ** D[0]}[f]()
            else:
                r = ONE_ARG[f][2 if f in (K.OP_NEG, K.OP_ABS) else 1](a)
            if r.shape != a.shape:
                raise SystemExit("wrong shape")
            self.store(I[3:3 + n], r)
        elif op == K.OP_AZIP:
            n = I[2]
            a = self.arr(I[3 + n:3 + 2 * n], D, (n,))
            b = self.arr(I[3 + 2 * n:], D, (n,))
            # the same number in all places: array with number
            if sp % 3 == 2 and I[1] < 100 and len(set(I[3 + 2 * n:])) == 1:
                b = b[0]
            elif sp % 3 == 2 and I[1] < 100 and n > 1 and len(set(I[3 + n:3 + 2 * n])) == 1 and I[3 + n] < 1000:
                a = a[0]
            self.store(I[3:3 + n], TWO_ARG[I[1]][1 if sp % 2 or I[1] >= 100 else 0](a, b))
        elif op == K.OP_AMATMUL:
            m, k, n = I[1:4]
            a = self.arr(I[4 + m * n:4 + m * n + m * k], D, (m, k))
            b = self.arr(I[4 + m * n + m * k:], D, (k, n))
            fs = [lambda: a @ b, lambda: np.dot(a, b), lambda: a.dot(b), lambda: np.matmul(a, b),
                  lambda: np.asfortranarray(a) @ np.asfortranarray(b)]
            if m == 1 and n == 1:
                fs += [lambda: np.dot(a[0], b[:, 0]), lambda: a[0] @ b[:, 0], lambda: np.inner(a[0], b[:, 0]), lambda: np.vdot(b[:, 0], a[0]) if False else np.dot(b[:, 0], a[0])]
            elif n == 1:
                fs += [lambda: a @ b[:, 0], lambda: np.dot(a, b[:, 0])]
            self.store(I[4:4 + m * n], fs[sp % len(fs)]())
        elif op == K.OP_ASUM:
            a = self.arr(I[3:], D, (I[1],))
            fs = [lambda: np.sum(a), lambda: a.sum(), lambda: sum(a), lambda: np.add.reduce(a), lambda: np.cumsum(a)[-1]]
            self.store([I[2]], np.array([fs[sp % len(fs)]()], dtype=object))
        elif op == K.OP_APROD:
            a = self.arr(I[3:], D, (I[1],))
            fs = [lambda: np.prod(a), lambda: a.prod(), lambda: math.prod(a), lambda: np.multiply.reduce(a), lambda: np.cumprod(a)[-1], lambda: functools.reduce(operator.mul, list(a))]
            self.store([I[2]], np.array([fs[sp % len(fs)]()], dtype=object))
        elif op == K.OP_ADET:
            a = self.arr(I[3:], D, (I[1], I[1]))
            d2 = lambda m: m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]
            d3 = lambda m: m[0, 0] * d2(m[1:, 1:]) - m[0, 1] * d2(m[1:, ::2]) + m[0, 2] * d2(m[1:, :2])
            fs = [lambda: d2(a)] if I[1] == 2 else [lambda: d3(a), lambda: np.dot(a[0], np.cross(a[1], a[2])), lambda: d3(a.T)]
            self.store([I[2]], np.array([fs[sp % len(fs)]()], dtype=object))
        elif op == K.OP_ACROSS:
            a = self.arr(I[4:7], D, (3,))
            b = self.arr(I[7:10], D, (3,))
            self.store(I[1:4], np.cross(a, b))
        elif op == K.OP_ANORM:
            a = self.arr(I[3:], D, (I[1],))
            fs = [lambda: np.linalg.norm(a), lambda: np.sqrt(np.dot(a, a)), lambda: np.sqrt((a * a).sum()), lambda: np.sqrt(np.sum(a ** 2))]
            self.store([I[2]], np.array([fs[sp % len(fs)]()], dtype=object))
        elif op == K.OP_ACMP:
            n = I[1]
            a = self.arr(I[2:2 + n], D, (n,))
            b = self.arr(I[2 + n:], D, (n,))
            rs = [f(a, b) for f in SIX]
            R += [biased(truth(r[t])) for t in range(n) for r in rs]
        elif op in (K.OP_MODF, K.OP_MODD, K.OP_MODDD):
            shape = tuple(I[2:2 + I[1]])
            refs = I[2 + I[1]:]
            if not shape:
                a = D[refs[0] - 1000] if refs[0] >= 1000 else self.X[refs[0]]
            else:
                a = self.arr(refs, D, shape)
                if sp % 3 == 1:
                    a = a.tolist()
                elif sp % 3 == 2:
                    a = np.asfortranarray(a)
            r = np.asarray({K.OP_MODF: hj.f, K.OP_MODD: hj.d, K.OP_MODDD: hj.dd}[op](a))
            if r.dtype != float:
                R.append(0)
            R += [biased(r.ndim)] + [biased(s) for s in r.shape] + [bits(x) for x in r.reshape(-1)]
        else:
            raise Unsupported(op)


def truth(x):
    if x is True or x is False or isinstance(x, np.bool_):
        return bool(x)
    raise SystemExit("comparison is not a truth value")


def main():
    script, out, first = sys.argv[1], open(sys.argv[2], "ab"), int(sys.argv[3]) if len(sys.argv) > 3 else 0
    number = -1
    m = Machine()
    for line in open(script):
        t = line.split()
        if t[0] == "S":
            number += 1
            if number >= first:
                print(number, flush=True)
            continue
        if number < first:
            continue
        op = int(t[0])
        nI = int(t[1])
        I = [int(x) for x in t[2:2 + nI]]
        W = [int(x, 16) for x in t[3 + nI:]]
        D = [struct.unpack("<d", struct.pack("<Q", w))[0] for w in W]
        R, O, outcome = [], [], 0
        try:
            with np.errstate(all="ignore"):
                m.run(op, I, D, R)
        except Exception:
            outcome, R = 1, []
        except Unsupported:
            print("unsupported operation", op, file=sys.stderr)
            sys.exit(77)
        n = m.observe(O)
        words = [0, op, outcome, len(I) | len(D) << 16 | len(R) << 32 | n << 48] + [biased(i) for i in I] + W + R + O
        words[0] = len(words)
        out.write(struct.pack("<%dQ" % len(words), *words))
        out.flush()
    out.close()
    print("done")


main()
