"""Floating-point arithmetic of the real kernels as solver terms.

A value is the real number it denotes (a z3 term) together with the condition
under which it is not finite.  Every rounded operation introduces a fresh real
r with |r - exact| <= u |exact| + eta (u half an ulp, eta half the smallest
subnormal), which holds for every IEEE operation that does not overflow; an
overflow or a division by zero makes the value non-finite.  This
over-approximates the arithmetic, so what the solver proves holds for the
floats; what it refutes is replayed.
"""
import time
from fractions import Fraction

from . import llir, pysym, smt
from .pysym import Unsupported

FORMATS = {"float": (24, 127), "double": (53, 1023)}


class Fp:
    """one execution"""

    def __init__(self, dtype, path=()):
        self.z3 = pysym.z3()
        self.dtype = dtype
        p, e = FORMATS[dtype]
        self.u = Fraction(1, 1 << p)
        self.tiny = Fraction(1, 1 << (e - 1 + p - 1))     # smallest subnormal
        self.max = (2 - Fraction(2, 1 << p)) * (1 << e)
        self.p, self.e = p, e
        self.defs = {}          # name -> (constraints, names they mention)
        self.guard = []         # path condition (z3 terms)
        self.gnames = set()
        self.ub = []            # (label, condition, names) that must be impossible
        self.n = 0
        self.path = list(path)
        self.taken = []
        self.more = []
        self.stats = {"queries": 0, "solver_s": 0.0, "asserted": 0}

    def q(self, f):
        f = Fraction(f)
        return self.z3.RealVal("%d/%d" % (f.numerator, f.denominator) if f.denominator != 1 else str(f.numerator))

    def fresh(self, tag, names):
        self.n += 1
        n = "%s!%d" % (tag, self.n)
        return n, self.z3.Real(n)

    def var(self, name):
        z3 = self.z3
        x = z3.Real(name)
        self.defs[name] = ([x <= self.q(self.max), x >= self.q(-self.max)], set())
        return V(self, x, z3.BoolVal(False), {name})

    def cone(self, names):
        seen, todo, cs = set(), list(names | self.gnames), list(self.guard)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            c, deps = self.defs[n]
            cs += c
            todo += deps
        return cs

    def check(self, cond, names, timeout=60000, extra=()):
        """sat/unsat/unknown of cond with everything it depends on"""
        z3 = self.z3
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*self.cone(names))
        s.add(cond)
        t0 = time.time()
        r = s.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        return str(r), (s.model() if r == z3.sat else None)

    def exact(self, f):
        """is the rational f a number of the format?"""
        f = abs(Fraction(f))
        if f == 0:
            return True
        if f > self.max:
            return False
        k = f / self.tiny
        if k.denominator != 1:
            return False
        n = k.numerator
        while n % 2 == 0:
            n //= 2
        return n < 1 << self.p

    def round(self, t, names, bad, bounds=()):
        """the rounded value of the exact term t; bounds: (condition, float)
        pairs, |t| <= |float| under the condition.  Rounding is monotonic and
        keeps floats, so it does not carry a value past one."""
        z3 = self.z3
        if isinstance(t, Fraction):
            if self.exact(t):
                return V(self, t, bad, names)
            tt = self.q(t)
        else:
            tt = t
        n, r = self.fresh("r", names)
        d, u, eta = r - tt, self.q(self.u), self.q(self.tiny / 2)
        ab = lambda x: z3.If(x >= 0, x, -x)
        cs = [d <= u * ab(tt) + eta, -d <= u * ab(tt) + eta]
        for c in (-255, -128, -127, -1, 0, 1, 127, 128, 255):
            cs += [z3.Implies(tt <= c, r <= c), z3.Implies(tt >= c, r >= c)]
        m = self.q(self.max)
        top = self.q(self.max + Fraction(2) ** (self.e - self.p))
        over = z3.Or(tt >= top, tt <= -top)
        cs.append(z3.Implies(z3.Not(over), z3.And(r <= m, -r <= m)))
        for c, b in bounds:
            cs.append(z3.Implies(c, ab(r) <= ab(b)))
        self.defs[n] = (cs, set(names))
        return V(self, r, z3.Or(bad, over), set(names) | {n})

    def lift(self, x):
        if isinstance(x, V):
            return x
        if x is None:
            raise llir.MemError("a value that was never written is used")
        return V(self, Fraction(x), self.z3.BoolVal(False), set())

    def branch(self, c):
        """decide a symbolic condition: both outcomes are explored in turn"""
        z3 = self.z3
        k = len(self.taken)
        if k < len(self.path):
            r = self.path[k]
        else:
            pos = [w for w, f in ((True, c.t), (False, z3.Not(c.t))) if self.check(f, c.names)[0] != "unsat"]
            r = pos[0] if pos else True
            if len(pos) == 2:
                self.more.append(self.taken + [False])
        self.taken.append(r)
        self.guard.append(c.t if r else z3.Not(c.t))
        self.gnames |= c.names
        return r


class B:
    """symbolic comparison"""

    def __init__(self, fp, t, names):
        self.fp, self.t, self.names = fp, t, names

    def __bool__(self):
        return self.fp.branch(self)

    def _two(self, o, f):
        if isinstance(o, B):
            return B(self.fp, f(self.t, o.t), self.names | o.names)
        return B(self.fp, f(self.t, self.fp.z3.BoolVal(bool(o))), self.names)

    def __and__(self, o):
        return self._two(o, self.fp.z3.And)

    def __or__(self, o):
        return self._two(o, self.fp.z3.Or)

    def __xor__(self, o):
        return self._two(o, self.fp.z3.Xor)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__


class V:
    __slots__ = ("fp", "t", "bad", "names")

    def __init__(self, fp, t, bad, names):
        self.fp, self.t, self.bad, self.names = fp, t, bad, names

    def term(self):
        return self.fp.q(self.t) if isinstance(self.t, Fraction) else self.t

    def const(self):
        return self.t if isinstance(self.t, Fraction) else None

    def _op(self, o, f, swap=False):
        o = self.fp.lift(o)
        a, b = (o, self) if swap else (self, o)
        z3 = self.fp.z3
        names = a.names | b.names
        bad = z3.BoolVal(False) if z3.is_false(a.bad) and z3.is_false(b.bad) else z3.Or(a.bad, b.bad)
        if a.const() is not None and b.const() is not None:
            return self.fp.round(f(a.t, b.t), names, bad)
        for x, y in ((a, b), (b, a)):
            if f is add and x.const() == 0:
                return V(self.fp, y.t, bad, names)
            if f is mul and x.const() in (0, 1, -1):
                k = x.const()
                return V(self.fp, Fraction(0) if k == 0 else y.t if k == 1 else -y.t, bad, names)
        if f is sub and b.const() == 0:
            return V(self.fp, a.t, bad, names)
        x, y = a.term(), b.term()
        bounds = []
        if f is mul:
            bounds = [(z3.And(x <= 1, x >= -1), y), (z3.And(y <= 1, y >= -1), x)]
        return self.fp.round(f(x, y), names, bad, bounds)

    def __add__(self, o):
        return self._op(o, add)

    def __radd__(self, o):
        return self._op(o, add, True)

    def __sub__(self, o):
        return self._op(o, sub)

    def __rsub__(self, o):
        return self._op(o, sub, True)

    def __mul__(self, o):
        return self._op(o, mul)

    def __rmul__(self, o):
        return self._op(o, mul, True)

    def __neg__(self):
        return V(self.fp, -self.t, self.bad, self.names)

    def div(self, o, swap=False):
        o = self.fp.lift(o)
        a, b = (o, self) if swap else (self, o)
        fp, z3 = self.fp, self.fp.z3
        names = a.names | b.names
        bad = z3.Or(a.bad, b.bad)
        k = b.const()
        if k is not None:
            if k == 0:
                return V(fp, Fraction(0), z3.BoolVal(True), names)
            return fp.round(a.t / k if isinstance(a.t, Fraction) else a.t * fp.q(1 / k), names, bad)
        n, q = fp.fresh("q", names)
        x, y = a.term(), b.t
        # the second line follows from the first; it spares the solver the product
        fp.defs[n] = ([z3.Or(y == 0, q * y == x),
                       z3.Implies(z3.And(y > 0, x <= y, -x <= y), z3.And(q <= 1, q >= -1))], set(names))
        return fp.round(q, names | {n}, z3.Or(bad, b.t == 0),
                        [(z3.Or(b.t >= 1, b.t <= -1), a.term())])


class I:
    """integer obtained from a float, known to be within its type"""

    def __init__(self, fp, t, names, bits, bad):
        self.fp, self.t, self.names, self.bits, self.bad = fp, t, names, bits, bad

    def __and__(self, m):
        if m == (1 << self.bits) - 1:
            return self
        raise Unsupported("bits of a converted value")

    def _v(self):
        return V(self.fp, self.t, self.bad, self.names)

    def __add__(self, o):
        raise Unsupported("integer arithmetic on a converted value")
    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __add__


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def mul(a, b):
    return a * b


class RT(llir.RT):
    def __init__(self, fp):
        super().__init__()
        self.fp = fp

    def fcmp(self, pred, a, b):
        fp = self.fp
        a, b = fp.lift(a), fp.lift(b)
        x, y = a.const(), b.const()
        o = pred[1:]
        if x is not None and y is not None:
            return {"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[o]
        p, q = a.term(), b.term()
        if p.eq(q):
            return o in ("eq", "ge", "le")
        return B(fp, {"eq": p == q, "ne": p != q, "gt": p > q, "ge": p >= q, "lt": p < q, "le": p <= q}[o],
                 a.names | b.names)

    def select(self, c, x, y):
        if not isinstance(c, B):
            return x if c else y
        fp, z3 = self.fp, self.fp.z3
        x, y = fp.lift(x), fp.lift(y)
        n, r = fp.fresh("s", None)
        names = c.names | x.names | y.names
        fp.defs[n] = ([r == z3.If(c.t, x.term(), y.term())], names)
        return V(fp, r, z3.simplify(z3.If(c.t, x.bad, y.bad)), names | {n})

    def fptoi(self, x, to):
        fp, z3 = self.fp, self.fp.z3
        x = fp.lift(x)
        bits = int(to[1:])
        if x.const() is not None:
            if not -1 < x.t < 1 << bits:
                fp.ub.append(("conversion of %s" % x.t, z3.BoolVal(True), x.names))
            return int(x.t)
        fp.ub.append(("conversion out of range", z3.Or(x.bad, x.t <= -1, x.t >= 1 << bits), x.names))
        n, k = fp.fresh("i", None)
        # truncation; the integer is relaxed to a real
        fp.defs[n] = ([z3.If(x.t >= 0, z3.And(k <= x.t, x.t < k + 1), z3.And(k >= x.t, x.t > k - 1)),
                       z3.Implies(x.t > -1, k >= 0)] +
                      [z3.Implies(x.t >= c, k >= c) for c in (1, 127, 128, 129, 255)] +
                      [z3.Implies(z3.And(x.t > -1, x.t < c + 1), k <= c) for c in (0, 1, 127, 128, 255)], x.names)
        return I(fp, k, x.names | {n}, bits, x.bad)


class Linked(llir.Linked):
    """modules whose divisions and conversions go through this module"""

    def __init__(self, fp, modules):
        super().__init__(modules)
        self.fp = fp

    def __getitem__(self, f):
        r = super().__getitem__(f)
        g = getattr(r, "__globals__", None)
        if g is not None:
            g["fdiv"] = lambda a, b: self.fp.lift(a).div(b)
            g["u"] = lambda a, n: (a & ((1 << n) - 1))._v() if isinstance(a, I) else a & ((1 << n) - 1)
        return r
